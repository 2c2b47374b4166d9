#include <cstdint>
#include <cstring>
#include "aes_cfb.h"
typedef uint64_t u64;
// up to three packets, mode bits in dir (1: decrypt)
extern "C" u64 vh_seq(uint8_t *key, uint8_t *iv, u64 dir, uint8_t *in, uint8_t *out, u64 n, uint8_t *in2, uint8_t *out2, u64 n2, uint8_t *in3, uint8_t *out3, u64 n3)
{
	aes_state cs;
	aes_cfb_initialize(&cs, key, iv);
	aes_cfb_process_packet(&cs, out, in, (int)n, dir & 1 ? DECRYPT : ENCRYPT);
	aes_cfb_process_packet(&cs, out2, in2, (int)n2, dir & 2 ? DECRYPT : ENCRYPT);
	aes_cfb_process_packet(&cs, out3, in3, (int)n3, dir & 4 ? DECRYPT : ENCRYPT);
	return 0;
}
extern "C" u64 vh_one(uint8_t *key, uint8_t *iv, u64 dir, uint8_t *in, uint8_t *out, u64 n)
{
	aes_state cs;
	aes_cfb_initialize(&cs, key, iv);
	aes_cfb_process_packet(&cs, out, in, (int)n, dir ? DECRYPT : ENCRYPT);
	return 0;
}
// sender encrypts two packets, receiver decrypts them
extern "C" u64 vh_ends(uint8_t *key, uint8_t *iv, uint8_t *in, u64 n, uint8_t *in2, u64 n2, uint8_t *ct, uint8_t *ct2, uint8_t *out, uint8_t *out2)
{
	aes_state a, b;
	aes_cfb_initialize(&a, key, iv);
	aes_cfb_initialize(&b, key, iv);
	aes_cfb_process_packet(&a, ct, in, (int)n, ENCRYPT);
	aes_cfb_process_packet(&a, ct2, in2, (int)n2, ENCRYPT);
	aes_cfb_process_packet(&b, out, ct, (int)n, DECRYPT);
	aes_cfb_process_packet(&b, out2, ct2, (int)n2, DECRYPT);
	return 0;
}
// the receiver starts with another IV and misses the first packet (l bytes); packets of n and n2 bytes arrive
extern "C" u64 vh_resync(uint8_t *key, uint8_t *iv, uint8_t *iv2, uint8_t *lost, u64 l, uint8_t *in, u64 n, uint8_t *in2, u64 n2, uint8_t *ct, uint8_t *out, uint8_t *out2)
{
	aes_state a, b;
	uint8_t *x = new uint8_t[l + 1], *ct2 = new uint8_t[n2 + 1];
	aes_cfb_initialize(&a, key, iv);
	aes_cfb_initialize(&b, key, iv2);
	aes_cfb_process_packet(&a, x, lost, (int)l, ENCRYPT);
	aes_cfb_process_packet(&a, ct, in, (int)n, ENCRYPT);
	aes_cfb_process_packet(&a, ct2, in2, (int)n2, ENCRYPT);
	aes_cfb_process_packet(&b, out, ct, (int)n, DECRYPT);
	aes_cfb_process_packet(&b, out2, ct2, (int)n2, DECRYPT);
	delete[] x;
	delete[] ct2;
	return 0;
}
// one corrupted received packet: err is XORed onto the first packet, the next two are received correctly
extern "C" u64 vh_corrupt(uint8_t *key, uint8_t *iv, uint8_t *err, uint8_t *in, u64 n, uint8_t *in2, u64 n2, uint8_t *in3, u64 n3, uint8_t *out3)
{
	aes_state a, b;
	uint8_t *c = new uint8_t[n + n2 + n3 + 1], *p = new uint8_t[n + n2 + 1];
	aes_cfb_initialize(&a, key, iv);
	aes_cfb_initialize(&b, key, iv);
	aes_cfb_process_packet(&a, c, in, (int)n, ENCRYPT);
	aes_cfb_process_packet(&a, c + n, in2, (int)n2, ENCRYPT);
	aes_cfb_process_packet(&a, c + n + n2, in3, (int)n3, ENCRYPT);
	for (u64 i = 0; i < n; i++) c[i] ^= err[i];
	aes_cfb_process_packet(&b, p, c, (int)n, DECRYPT);
	aes_cfb_process_packet(&b, p + n, c + n, (int)n2, DECRYPT);
	aes_cfb_process_packet(&b, out3, c + n + n2, (int)n3, DECRYPT);
	delete[] c;
	delete[] p;
	return 0;
}
extern "C" u64 vh_reinit(uint8_t *key0, uint8_t *iv0, u64 dir, uint8_t *in0, uint8_t *out0, u64 n0, uint8_t *key, uint8_t *iv, uint8_t *in, uint8_t *out, u64 n)
{
	aes_state cs;
	aes_cfb_initialize(&cs, key0, iv0);
	aes_cfb_process_packet(&cs, out0, in0, (int)n0, dir & 1 ? DECRYPT : ENCRYPT);
	aes_cfb_initialize(&cs, key, iv);
	aes_cfb_process_packet(&cs, out, in, (int)n, dir & 2 ? DECRYPT : ENCRYPT);
	return 0;
}
extern "C" u64 vh_schedule(uint8_t *key, uint8_t *out)
{
	uint32_t ks[44];
	aes_key_expansion(key, ks);
	memcpy(out, ks, 176);
	return 0;
}
// the block function called directly on the register holding the IV
extern "C" u64 vh_block(uint8_t *key, uint8_t *iv, uint8_t *out)
{
	aes_state cs;
	uint32_t ks[4];
	aes_cfb_initialize(&cs, key, iv);
	aes_encrypt(&cs, ks);
	memcpy(out, ks, 16);
	return 0;
}

extern "C" u64 vh_size() { return sizeof(aes_state); }
extern "C" u64 vh_rel(uint8_t *key0, uint8_t *iv0, u64 dir, uint8_t *in0, uint8_t *out0, u64 n0, uint8_t *key, uint8_t *iv, uint8_t *in, uint8_t *out, uint8_t *fresh, u64 n)
{
	aes_state cs, f;
	aes_cfb_initialize(&cs, key0, iv0);
	aes_cfb_process_packet(&cs, out0, in0, (int)n0, dir & 1 ? DECRYPT : ENCRYPT);
	if (dir & 4) aes_cfb_process_packet(&cs, out0, in0, (int)n0, dir & 2 ? DECRYPT : ENCRYPT);
	aes_cfb_initialize(&cs, key, iv);
	aes_cfb_process_packet(&cs, out, in, (int)n, dir & 2 ? DECRYPT : ENCRYPT);
	aes_cfb_initialize(&f, key, iv);
	aes_cfb_process_packet(&f, fresh, in, (int)n, dir & 2 ? DECRYPT : ENCRYPT);
	return 0;
}
extern "C" u64 vh_junk(uint8_t *junk, uint8_t *key, uint8_t *iv, u64 dir, uint8_t *in, uint8_t *out, uint8_t *fresh, u64 n)
{
	aes_state cs, f;
	memcpy((void *)&cs, junk, sizeof(cs));
	aes_cfb_initialize(&cs, key, iv);
	aes_cfb_process_packet(&cs, out, in, (int)n, dir & 2 ? DECRYPT : ENCRYPT);
	aes_cfb_initialize(&f, key, iv);
	aes_cfb_process_packet(&f, fresh, in, (int)n, dir & 2 ? DECRYPT : ENCRYPT);
	return 0;
}
