// Packets from an arbitrary counter value. This uses the register fields of the state structure; vh_same tells whether a
// state patched that way is, byte for byte, the state that processing that many blocks leaves.
#include <cstdint>
#include <cstring>
#include "aes_ctr.h"
typedef uint64_t u64;
static void skip(aes_state *cs, u64 blocks)
{
	static uint8_t buf[65536];
	while (blocks)
	{
		u64 k = blocks < 4096 ? blocks : 4096;
		aes_ctr_process_packet(cs, buf, buf, (int)(16 * k));
		blocks -= k;
	}
}
extern "C" u64 vh_at(uint8_t *key, uint8_t *iv, uint8_t *ctr, uint8_t *in, uint8_t *out, u64 n, uint8_t *in2, uint8_t *out2, u64 n2)
{
	aes_state cs;
	aes_load_key(&cs, key);
	aes_load_iv(&cs, iv);
	memcpy(&cs.reg4, ctr, 4);
	aes_ctr_process_packet(&cs, out, in, (int)n);
	aes_ctr_process_packet(&cs, out2, in2, (int)n2);
	return 0;
}
// the same packets, with the counter brought there by processing blocks
extern "C" u64 vh_hist(uint8_t *key, uint8_t *iv, uint8_t *ctr, uint8_t *in, uint8_t *out, u64 n, uint8_t *in2, uint8_t *out2, u64 n2)
{
	static aes_state cs;
	aes_load_key(&cs, key);
	aes_load_iv(&cs, iv);
	u64 c = ((u64)ctr[0] << 24) | (ctr[1] << 16) | (ctr[2] << 8) | ctr[3];
	skip(&cs, c - 1);
	aes_ctr_process_packet(&cs, out, in, (int)n);
	aes_ctr_process_packet(&cs, out2, in2, (int)n2);
	return 0;
}
extern "C" u64 vh_same(uint8_t *key, uint8_t *iv, u64 blocks)
{
	static aes_state a, b;
	aes_load_key(&a, key);
	aes_load_iv(&a, iv);
	aes_load_key(&b, key);
	aes_load_iv(&b, iv);
	skip(&a, blocks);
	uint8_t c[4] = {0, (uint8_t)((blocks + 1) >> 16), (uint8_t)((blocks + 1) >> 8), (uint8_t)(blocks + 1)};
	memcpy(&b.reg4, c, 4);
	return memcmp(&a, &b, sizeof a) == 0;
}
