// Stand-in for the NRLMSISE-00 C port (absent offline). Smooth, positive, decreasing with altitude, depending on every input that s2e-core
// computes, so that a wrongly computed input shows in the output. It also records its last input for monitors.
#include "nrlmsise-00.h"

#include <cmath>

extern "C" {
struct nrlmsise_input verif_last_nrlmsise_input;
int verif_nrlmsise_calls = 0;

void gtd7(struct nrlmsise_input* input, struct nrlmsise_flags* flags, struct nrlmsise_output* output) {
  verif_last_nrlmsise_input = *input;
  verif_nrlmsise_calls++;
  const double h = input->alt;  // km
  const double scale = 25.0 + 0.1 * h + 0.08 * input->f107A + 0.02 * input->f107 + 0.1 * input->ap;
  double rho = 5e-7 * std::exp(-(h - 100.0) / scale) * (1.0 + 0.1 * std::cos((input->lst - 14.0) * 3.14159265358979 / 12.0)) *
               (1.0 + 0.05 * std::cos(input->g_lat * 3.14159265358979 / 90.0)) * (1.0 + 0.02 * std::cos(input->doy * 0.0172));
  if (!flags->switches[0]) rho *= 1e-3;  // g/cm3 instead of kg/m3
  for (int i = 0; i < 9; i++) output->d[i] = 0.0;
  output->d[5] = rho;
  output->t[0] = 1000.0;
  output->t[1] = 900.0;
}
}
