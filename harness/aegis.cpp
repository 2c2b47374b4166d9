#include <cstdint>
#include <cstring>
#include "aegis_128.h"
typedef uint64_t u64;
extern "C" u64 vh_enc(uint8_t *key, uint8_t *iv, uint8_t *ad, u64 an, uint8_t *pt, u64 n, uint8_t *ct, uint8_t *tag)
{
	aegis_state cs;
	aegis_load_key(&cs, key);
	aegis_encrypt_packet(&cs, ct, tag, pt, ad, iv, an, n);
	return 0;
}
extern "C" u64 vh_dec(uint8_t *key, uint8_t *iv, uint8_t *ad, u64 an, uint8_t *ct, u64 n, uint8_t *pt, uint8_t *tag)
{
	aegis_state cs;
	aegis_load_key(&cs, key);
	return (u64)(int64_t)aegis_decrypt_packet(&cs, pt, ct, ad, iv, tag, an, n);
}
// encrypt and decrypt with one state each, received tag = tag XOR delta
extern "C" u64 vh_trip(uint8_t *key, uint8_t *iv, uint8_t *ad, u64 an, uint8_t *pt, u64 n, uint8_t *ct, uint8_t *tag, uint8_t *out, uint8_t *delta)
{
	aegis_state a, b;
	aegis_load_key(&a, key);
	aegis_load_key(&b, key);
	aegis_encrypt_packet(&a, ct, tag, pt, ad, iv, an, n);
	for (int i = 0; i < 16; i++) tag[i] ^= delta[i];
	return (u64)(int64_t)aegis_decrypt_packet(&b, out, ct, ad, iv, tag, an, n);
}
// a packet after another packet with the same object
extern "C" u64 vh_again(uint8_t *key, uint8_t *iv0, uint8_t *pt0, u64 n0, uint8_t *ct0, uint8_t *iv, uint8_t *ad, u64 an, uint8_t *pt, u64 n, uint8_t *ct, uint8_t *tag)
{
	aegis_state cs;
	uint8_t t[16];
	aegis_load_key(&cs, key);
	aegis_encrypt_packet(&cs, ct0, t, pt0, ad, iv0, an, n0);
	aegis_encrypt_packet(&cs, ct, tag, pt, ad, iv, an, n);
	return 0;
}
// a packet after a decryption (which may have failed) with the same object
extern "C" u64 vh_afterdec(uint8_t *key, uint8_t *iv0, uint8_t *ct0, u64 n0, uint8_t *tag0, uint8_t *iv, uint8_t *pt, u64 n, uint8_t *ct, uint8_t *tag)
{
	aegis_state cs;
	uint8_t *p = new uint8_t[n0 + 1];
	uint8_t no[1] = {0};
	aegis_load_key(&cs, key);
	aegis_decrypt_packet(&cs, p, ct0, no, iv0, tag0, 0, n0);
	aegis_encrypt_packet(&cs, ct, tag, pt, no, iv, 0, n);
	delete[] p;
	return 0;
}
extern "C" u64 vh_rekey(uint8_t *key0, uint8_t *iv0, uint8_t *pt0, u64 n0, uint8_t *ct0, uint8_t *key, uint8_t *iv, uint8_t *pt, u64 n, uint8_t *ct, uint8_t *tag)
{
	aegis_state cs;
	uint8_t t[16], no[1] = {0};
	aegis_load_key(&cs, key0);
	aegis_encrypt_packet(&cs, ct0, t, pt0, no, iv0, 0, n0);
	aegis_load_key(&cs, key);
	aegis_encrypt_packet(&cs, ct, tag, pt, no, iv, 0, n);
	return 0;
}

extern "C" u64 vh_size() { return sizeof(aegis_state); }
// out, fresh: ciphertext and tag.  hist bit 0: the earlier packet is decrypted, bit 1: the key is loaded again (else key0 stays)
extern "C" u64 vh_rel(uint8_t *key0, uint8_t *iv0, u64 hist, uint8_t *in0, uint8_t *out0, u64 n0, uint8_t *key, uint8_t *iv, uint8_t *in, uint8_t *out, uint8_t *fresh, u64 n)
{
	aegis_state cs, f;
	uint8_t t[16] = {0};
	aegis_load_key(&cs, key0);
	if (hist & 1) aegis_decrypt_packet(&cs, out0, in0, key, iv0, t, 16, n0);
	else aegis_encrypt_packet(&cs, out0, t, in0, key, iv0, 16, n0);
	if (hist & 2) aegis_load_key(&cs, key);
	aegis_encrypt_packet(&cs, out, out + n, in, iv0, iv, 16, n);
	aegis_load_key(&f, hist & 2 ? key : key0);
	aegis_encrypt_packet(&f, fresh, fresh + n, in, iv0, iv, 16, n);
	return 0;
}
extern "C" u64 vh_junk(uint8_t *junk, uint8_t *key, uint8_t *iv, uint8_t *in, uint8_t *out, uint8_t *fresh, u64 n)
{
	aegis_state cs, f;
	memcpy((void *)&cs, junk, sizeof(cs));
	aegis_load_key(&cs, key);
	aegis_encrypt_packet(&cs, out, out + n, in, iv, iv, 3, n);
	aegis_load_key(&f, key);
	aegis_encrypt_packet(&f, fresh, fresh + n, in, iv, iv, 3, n);
	return 0;
}

// the received tag afterwards: kept on success, all zero on failure (ok: what it has to be)
extern "C" u64 vh_tagafter(uint8_t *key, uint8_t *iv, uint8_t *ad, u64 an, uint8_t *ct, u64 n, uint8_t *pt, uint8_t *tag, uint8_t *ok)
{
	aegis_state cs;
	aegis_load_key(&cs, key);
	memcpy(ok, tag, 16);
	if (!aegis_decrypt_packet(&cs, pt, ct, ad, iv, tag, an, n)) memset(ok, 0, 16);
	return 0;
}
