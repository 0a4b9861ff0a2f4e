/* Stand-in for nrlmsise-00.h: the public structures of the C port and gtd7. See ../nrlmsise_stub.cpp. */
#ifndef VERIF_NRLMSISE00_H_
#define VERIF_NRLMSISE00_H_
struct nrlmsise_flags {
  int switches[24];
  double sw[24];
  double swc[24];
};
struct ap_array {
  double a[7];
};
struct nrlmsise_input {
  int year;
  int doy;
  double sec;
  double alt;
  double g_lat;
  double g_long;
  double lst;
  double f107A;
  double f107;
  double ap;
  struct ap_array* ap_a;
};
struct nrlmsise_output {
  double d[9];
  double t[2];
};
#ifdef __cplusplus
extern "C" {
#endif
void gtd7(struct nrlmsise_input* input, struct nrlmsise_flags* flags, struct nrlmsise_output* output);
#ifdef __cplusplus
}
#endif
#endif
