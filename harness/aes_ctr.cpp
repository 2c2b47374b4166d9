#include <cstdint>
#include <cstring>
#include "aes_ctr.h"
#define ST aes_state
#define LOADIV(cs, iv) aes_load_iv(&cs, iv)
#define INIT(cs, key, iv) aes_load_key(&cs, key); LOADIV(cs, iv)
#define PROC(cs, out, in, n) aes_ctr_process_packet(&cs, out, in, (int)n)
#include "stream.inc"
extern "C" u64 vh_schedule(uint8_t *key, uint8_t *out)
{
	uint32_t ks[44];
	aes_key_expansion(key, ks);
	memcpy(out, ks, 176);
	return 0;
}
// the block function on nonce || 00000001, called directly, twice
extern "C" u64 vh_block(uint8_t *key, uint8_t *iv, uint8_t *out, uint8_t *out2)
{
	aes_state cs;
	uint32_t ks[4];
	aes_load_key(&cs, key);
	aes_load_iv(&cs, iv);
	aes_encrypt(&cs, ks);
	memcpy(out, ks, 16);
	aes_encrypt(&cs, ks);
	memcpy(out2, ks, 16);
	return 0;
}
// nonce first, key second; key reloaded between packets without touching the counter
extern "C" u64 vh_ivkey(uint8_t *iv, uint8_t *key, uint8_t *in, uint8_t *out, u64 n, uint8_t *key2, uint8_t *in2, uint8_t *out2, u64 n2)
{
	aes_state cs;
	aes_load_iv(&cs, iv);
	aes_load_key(&cs, key);
	aes_ctr_process_packet(&cs, out, in, (int)n);
	aes_load_key(&cs, key2);
	aes_ctr_process_packet(&cs, out2, in2, (int)n2);
	return 0;
}
