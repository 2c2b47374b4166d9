#include <cstdint>
#include <cstring>
#include "chacha.h"
#define ST chacha_state
#define INIT(cs, key, iv) chacha_initialize(&cs, key, iv)
#define PROC(cs, out, in, n) chacha_process_packet(&cs, out, in, n)
#include "stream.inc"
extern "C" u64 vh_block(uint8_t *key, uint8_t *iv, uint8_t *ctr, uint8_t *out)
{
	chacha_state cs;
	uint32_t c, ks[16];
	memcpy(&c, ctr, 4);
	chacha_initialize(&cs, key, iv);
	chacha_block(&cs, c, ks);
	memcpy(out, ks, 64);
	return 0;
}
