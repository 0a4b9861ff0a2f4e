/* Stand-in for c2a-core: records the commands that are registered */
#ifndef VERIF_C2A_COMMON_CMD_PACKET_UTIL_H_
#define VERIF_C2A_COMMON_CMD_PACKET_UTIL_H_
#include <stdint.h>
typedef int CMD_CODE;
enum { TLCD_ID_FROM_GS = 0 };
#define CSP_MAX_LEN 432
void CCP_register_rtc(CMD_CODE id, const uint8_t* param, uint16_t len);
void CCP_register_tlc(uint32_t ti, int tlcd, CMD_CODE id, const uint8_t* param, uint16_t len);
#endif
