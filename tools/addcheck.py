#!/usr/bin/env python3
"""addcheck.py ID harness[,harness] RULE : registers a check in checks.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks.json")
c = json.load(open(p))
c[sys.argv[1]] = dict(c.get(sys.argv[1], {}), harness=sys.argv[2].split(","), rule=sys.argv[3])
json.dump(dict(sorted(c.items())), open(p, "w"), indent=1)
