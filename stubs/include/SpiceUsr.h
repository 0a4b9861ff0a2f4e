/* Stand-in for NAIF's SpiceUsr.h: only what s2e-core uses. See ../spice_stub.cpp. */
#ifndef VERIF_SPICEUSR_H_
#define VERIF_SPICEUSR_H_
#ifdef __cplusplus
extern "C" {
#endif
typedef int SpiceInt;
typedef double SpiceDouble;
typedef int SpiceBoolean;
typedef char SpiceChar;
typedef const char ConstSpiceChar;
typedef const double ConstSpiceDouble;
#define SPICETRUE 1
#define SPICEFALSE 0
void furnsh_c(ConstSpiceChar* file);
void str2et_c(ConstSpiceChar* str, SpiceDouble* et);
void bodvcd_c(SpiceInt bodyid, ConstSpiceChar* item, SpiceInt maxn, SpiceInt* dim, SpiceDouble* values);
void bodc2n_c(SpiceInt code, SpiceInt lenout, SpiceChar* name, SpiceBoolean* found);
void bodn2c_c(ConstSpiceChar* name, SpiceInt* code, SpiceBoolean* found);
void spkezr_c(ConstSpiceChar* target, SpiceDouble et, ConstSpiceChar* ref, ConstSpiceChar* abcorr, ConstSpiceChar* obs, SpiceDouble starg[6],
              SpiceDouble* lt);
void sxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble xform[6][6]);
#ifdef __cplusplus
}
#endif
#endif
