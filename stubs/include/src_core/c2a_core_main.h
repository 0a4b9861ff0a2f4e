/* Stand-in for c2a-core: only what the command sender needs */
#ifndef VERIF_C2A_CORE_MAIN_H_
#define VERIF_C2A_CORE_MAIN_H_
#define C2A_CORE_VER_MAJOR 4
#endif
