#include <cstdint>
#include <cstring>
#include "des.h"
extern "C" u64 vh_enc(uint8_t *key, uint8_t *in, uint8_t *out)
{
	des_state cs;
	u32 i[2], o[2];
	memcpy(i, in, 8);
	des_key_schedule_encrypt(&cs, key);
	des_ecb_block(&cs, o, i);
	memcpy(out, o, 8);
	return 0;
}
extern "C" u64 vh_dec(uint8_t *key, uint8_t *in, uint8_t *out)
{
	des_state cs;
	u32 i[2], o[2];
	memcpy(i, in, 8);
	des_key_schedule_decrypt(&cs, key);
	des_ecb_block(&cs, o, i);
	memcpy(out, o, 8);
	return 0;
}
extern "C" u64 vh_trip(uint8_t *key, uint8_t *in, uint8_t *out)
{
	des_state a, b;
	u32 i[2], m[2], o[2];
	memcpy(i, in, 8);
	des_key_schedule_encrypt(&a, key);
	des_key_schedule_decrypt(&b, key);
	des_ecb_block(&a, m, i);
	des_ecb_block(&b, o, m);
	memcpy(out, o, 8);
	return 0;
}
extern "C" u64 vh_ecb(uint8_t *key, u64 dir, uint8_t *in, uint8_t *out, u64 n)
{
	des_state cs;
	if (dir) des_key_schedule_decrypt(&cs, key); else des_key_schedule_encrypt(&cs, key);
	des_process_packet_ecb(&cs, (u32 *)out, (u32 *)in, n);
	return 0;
}
extern "C" u64 vh_ecb2(uint8_t *key, uint8_t *in, uint8_t *ct, uint8_t *out, u64 n)
{
	des_state a, b;
	des_key_schedule_encrypt(&a, key);
	des_key_schedule_decrypt(&b, key);
	des_process_packet_ecb(&a, (u32 *)ct, (u32 *)in, n);
	des_process_packet_ecb(&b, (u32 *)out, (u32 *)ct, n);
	return 0;
}
extern "C" u64 vh_ctr(uint8_t *key, uint8_t *nonce, uint8_t *in, uint8_t *out, u64 n)
{
	des_state cs;
	des_key_schedule_encrypt(&cs, key);
	des_process_packet_ctr(&cs, (u32 *)out, (u32 *)in, (u32 *)nonce, n);
	return 0;
}
// encrypt and decrypt with the same object
extern "C" u64 vh_ctr2(uint8_t *key, uint8_t *nonce, uint8_t *in, uint8_t *ct, uint8_t *out, u64 n)
{
	des_state cs;
	des_key_schedule_encrypt(&cs, key);
	des_process_packet_ctr(&cs, (u32 *)ct, (u32 *)in, (u32 *)nonce, n);
	des_process_packet_ctr(&cs, (u32 *)out, (u32 *)ct, (u32 *)nonce, n);
	return 0;
}
extern "C" u64 vh_rekey(uint8_t *key0, u64 dir, uint8_t *in0, uint8_t *out0, u64 n0, uint8_t *key, uint8_t *in, uint8_t *out, u64 n)
{
	des_state cs;
	if (dir & 1) des_key_schedule_decrypt(&cs, key0); else des_key_schedule_encrypt(&cs, key0);
	des_process_packet_ecb(&cs, (u32 *)out0, (u32 *)in0, n0);
	if (dir & 2) des_key_schedule_decrypt(&cs, key); else des_key_schedule_encrypt(&cs, key);
	des_process_packet_ecb(&cs, (u32 *)out, (u32 *)in, n);
	return 0;
}

extern "C" u64 vh_size() { return sizeof(des_state); }
// dir bit 0/1: decryption schedule before/now, bit 2: counter mode before
extern "C" u64 vh_rel(uint8_t *key0, u64 dir, uint8_t *in0, uint8_t *out0, u64 n0, uint8_t *key, uint8_t *in, uint8_t *out, uint8_t *fresh, u64 n)
{
	des_state cs, f;
	if (dir & 1) des_key_schedule_decrypt(&cs, key0); else des_key_schedule_encrypt(&cs, key0);
	if (dir & 4) des_process_packet_ctr(&cs, (u32 *)out0, (u32 *)in0, (u32 *)key, n0);
	else des_process_packet_ecb(&cs, (u32 *)out0, (u32 *)in0, n0);
	if (dir & 2) des_key_schedule_decrypt(&cs, key); else des_key_schedule_encrypt(&cs, key);
	des_process_packet_ecb(&cs, (u32 *)out, (u32 *)in, n);
	if (dir & 2) des_key_schedule_decrypt(&f, key); else des_key_schedule_encrypt(&f, key);
	des_process_packet_ecb(&f, (u32 *)fresh, (u32 *)in, n);
	return 0;
}
extern "C" u64 vh_junk(uint8_t *junk, u64 dir, uint8_t *key, uint8_t *in, uint8_t *out, uint8_t *fresh, u64 n)
{
	des_state cs, f;
	memcpy((void *)&cs, junk, sizeof(cs));
	if (dir & 2) des_key_schedule_decrypt(&cs, key); else des_key_schedule_encrypt(&cs, key);
	des_process_packet_ecb(&cs, (u32 *)out, (u32 *)in, n);
	if (dir & 2) des_key_schedule_decrypt(&f, key); else des_key_schedule_encrypt(&f, key);
	des_process_packet_ecb(&f, (u32 *)fresh, (u32 *)in, n);
	return 0;
}
