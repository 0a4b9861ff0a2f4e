#!/usr/bin/env python3
"""Decides one property: builds its harnesses against /repo's current tree with sanitizers, runs every case group in its own process, and
judges what the monitors recorded.

usage: check.py PROPERTY [quick|thorough]
exit 0: held on everything explored; exit 1 with VIOLATION lines: broken; 2: the check could not decide (build or harness failure)
environment: VERIF_SEED, VERIF_TIER; VERIF_BUILD_DIR keeps the build directory (development only), VERIF_GROUPS=a,b runs only these groups
"""
import concurrent.futures as cf
import fnmatch
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = str(os.cpu_count() or 8)


def die(message, code=2):
    print("ERROR " + message, flush=True)
    sys.exit(code)


def known_findings(prop):
    """Lines `known: property=<id> key=<glob> <what fails>` of known-findings.txt. `fixed:` lines suppress nothing."""
    found = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                found.append((m.group(2), m.group(3).strip()))
    return found


def build(targets, bdir, log):
    env = dict(os.environ, CC="clang", CXX="clang++")
    for cmd in (["cmake", "-S", os.path.join(VERIF, "cmake"), "-B", bdir, "-G", "Ninja", "-DREPO=" + REPO],
                ["ninja", "-C", bdir, "-j", JOBS] + targets):
        for attempt in (1, 2):
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            log.write(r.stdout)
            if r.returncode == 0:
                break
        if r.returncode != 0:
            print(r.stdout[-4000:])
            die("build failed: " + " ".join(cmd))


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97:detect_stack_use_after_return=1:strict_init_order=1:"
                    "check_initialization_order=1:allocator_may_return_null=1:max_malloc_fill_size=4096:malloc_fill_byte=255:detect_odr_violation=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=97",
    "ASAN_SYMBOLIZER_PATH": shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or "/usr/bin/llvm-symbolizer-18",
    "LC_ALL": "C", "TZ": "UTC",
}


def crash_key(text, rc, group):
    """A key for an abnormal end that does not depend on line numbers: the kind of report and the first frame in the code under test."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        kind = "asan-" + m.group(1)
    else:
        m = re.search(r"runtime error: (.*)", text)
        if m:
            words = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+-]*", "N", m.group(1))
            kind = "ubsan-" + re.sub(r"[^A-Za-z]+", "-", words)[:60].strip("-")
    if kind is None:
        m = re.search(r"Assertion `?(.*?)'? failed", text)
        if m:
            kind = "assert"
        elif "terminate called" in text:
            kind = "terminate"
        elif rc < 0:
            kind = "signal-%d" % -rc
        else:
            kind = "exit-%d" % rc
    frame = "?"
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(?::\d+)*$", text, re.M):
        if "/src/" in m.group(2) and "compiler-rt" not in m.group(2) and "/verif/" not in m.group(2):
            frame = re.sub(r"\(.*", "", m.group(1)).replace(" ", "")
            break
    return "crash:%s:%s:%s" % (kind, group, frame)


def run_group(exe, group, seed, tier, work, limit):
    name = os.path.basename(exe) + "." + group
    out = os.path.join(work, name + ".json")
    log = os.path.join(work, name + ".log")
    scratch = os.path.join(work, name + ".d")
    for attempt in (1, 2):
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exe, "--run", group, "--seed", str(seed), "--tier", tier, "--out", out, "--scratch", scratch]
        t0 = time.time()
        with open(log, "wb") as f:
            def limits():
                os.setsid()
                resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            p = subprocess.Popen(cmd, cwd=scratch, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, preexec_fn=limits,
                                 env=dict(os.environ, **SAN_ENV))
            try:
                rc = p.wait(timeout=limit)
                hung = False
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc, hung = -9, True
        if not hung and not (rc == -9):
            break
    res = {"group": name, "wall": time.time() - t0, "cmd": " ".join(cmd)}
    ctx = ""
    try:
        ctx = open(out + ".ctx", "rb").read().split(b"\0")[0].decode("utf-8", "replace")
    except OSError:
        pass
    if rc == 0 and os.path.exists(out):
        try:
            res.update(json.load(open(out)))
            res["group"] = name
        except ValueError as e:
            res["error"] = "unreadable result: %s" % e
    elif hung:
        res["violations"] = [{"key": "hang:" + group, "detail": "no end after %d s (twice)" % limit, "context": ctx, "count": 1}]
    elif rc == -9:
        res["error"] = "killed (memory?)"
    elif rc == 3:
        res["error"] = "harness error: " + open(log, errors="replace").read()[-500:]
    else:
        with open(log, "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - 200000))
            text = f.read().decode("utf-8", "replace")
        m = re.search(r"(==\d+==ERROR|runtime error|Assertion|terminate called|what\(\))[^\n]*", text)
        summary = m.group(0) if m else text[-300:]
        frames = re.findall(r"#\d+ 0x[0-9a-f]+ in [^\n]*", text)[:6]
        res["violations"] = [{"key": crash_key(text, rc, group), "detail": "exit %d: %s | %s" % (rc, summary, " | ".join(frames)),
                              "context": ctx, "count": 1}]
    shutil.rmtree(scratch, ignore_errors=True)
    return res


def all_harnesses(conf):
    """Those of the property itself, and of the groups that observe it beside another property ("also")."""
    return list(dict.fromkeys(conf["harness"] + [a.split(".")[0] for a in conf.get("also", [])]))


def main():
    if len(sys.argv) < 2:
        die(__doc__)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = json.load(open(os.path.join(VERIF, "checks.json")))[prop]
    t0 = time.time()
    keep = os.environ.get("VERIF_BUILD_DIR")
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    bdir = keep or os.path.join(work, "build")
    code = 2
    try:
        with open(os.path.join(work, "build.log"), "w") as log:
            build(all_harnesses(conf), bdir, log)
        t_build = time.time() - t0
        jobs = []
        for h in all_harnesses(conf):
            exe = os.path.join(bdir, "bin", h)
            r = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, env=dict(os.environ, **SAN_ENV))
            if r.returncode != 0:
                die("cannot list the groups of " + h)
            for g in r.stdout.split():
                if os.environ.get("VERIF_GROUPS") and g not in os.environ["VERIF_GROUPS"].split(","):
                    continue
                if h in conf["harness"] or h + "." + g in conf.get("also", []):
                    jobs.append((exe, g))
        limit = conf.get("timeout_s", 150) if tier == "quick" else conf.get("timeout_thorough_s", 3000)
        with cf.ThreadPoolExecutor(int(JOBS)) as pool:
            results = list(pool.map(lambda j: run_group(j[0], j[1], seed, tier, work, limit), jobs))
        code = judge(prop, tier, seed, conf, results, t0, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def judge(prop, tier, seed, conf, results, t0, t_build):
    known = known_findings(prop)
    seen_known, new, errors = {}, [], []
    evaluations = distinct = checks = 0
    events, samples, groups = {}, [], {}
    for r in results:
        if r.get("error"):
            errors.append("%s: %s" % (r["group"], r["error"]))
        if r.get("missing"):
            errors.append("%s: observed too little: %s" % (r["group"], ", ".join(r["missing"])))
        if not r.get("violations") and not r.get("error") and not r.get("evaluations"):
            errors.append("%s: no case was evaluated" % r["group"])
        evaluations += r.get("evaluations", 0)
        checks += r.get("checks", 0)
        distinct += r.get("distinct", 0)
        groups[r["group"]] = {"cases": r.get("evaluations", 0), "monitor_evaluations": r.get("checks", 0), "distinct": r.get("distinct", 0),
                              "wall_s": round(r["wall"], 2)}
        for k, v in r.get("events", {}).items():
            events[k] = events.get(k, 0) + v
        for s in r.get("samples", [])[:3]:
            samples.append("%s: %s" % (r["group"], s))
        for v in r.get("violations", []):
            hit = [what for glob, what in known if fnmatch.fnmatchcase(v["key"], glob)]
            if hit:
                seen_known[hit[0]] = seen_known.get(hit[0], 0) + v["count"]
            else:
                new.append(dict(v, group=r["group"], cmd=r["cmd"]))
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "exploration"),
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct, "rule": conf["rule"], "samples": samples[:60],
            "monitor_evaluations": checks, "events_observed": events, "groups": groups,
            "sanitizers": "AddressSanitizer, UndefinedBehaviorSanitizer (with float-cast-overflow), libstdc++ assertions: fatal in every group",
            "known_findings_seen": seen_known, "build_s": round(t_build, 1),
        },
        "violations": new, "inconclusive": errors, "wall_s": round(time.time() - t0, 1),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)
    for what in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    shown = set()
    if new:
        replay = os.path.join(VERIF, "evidence", prop + ".replay.json")
        with open(replay, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "how": "VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (seed, tier, prop),
                       "violations": new}, f, indent=1)
        for v in new:
            if v["key"] in shown:
                continue
            shown.add(v["key"])
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            print("  [%s] %s (x%d): %s  case: %s" % (v["group"], v["key"], v["count"], v["detail"][:700], v["context"][:400]))
        return 1
    for e in errors:
        print("INCONCLUSIVE " + e)
    if errors:
        return 2
    print("OK property=%s: %d cases, %d monitor evaluations, %d distinct states, %d kinds of events, %.0f s (build %.0f s)" %
          (prop, evaluations, checks, distinct, len(events), time.time() - t0, t_build))
    return 0


if __name__ == "__main__":
    main()
