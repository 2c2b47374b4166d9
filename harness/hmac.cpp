#include <cstdint>
#include <cstring>
#include "hmac.h"
#include "sha-256.h"
typedef uint64_t u64;
extern "C" u64 vh_tag(uint8_t *key, u64 kn, uint8_t *msg, u64 n, uint8_t *tag, u64 tn)
{
	hmac_state cs;
	hmac_load_key(&cs, key, (int)kn);
	hmac_tag_generation(&cs, tag, msg, n, (int)tn);
	return 0;
}
extern "C" u64 vh_validate(uint8_t *key, u64 kn, uint8_t *msg, u64 n, uint8_t *tag, u64 tn)
{
	hmac_state cs;
	hmac_load_key(&cs, key, (int)kn);
	return (u64)(int64_t)hmac_tag_validation(&cs, tag, msg, n, (int)tn);
}
// generation and validation with the same object, presented tag = generated tag XOR delta
extern "C" u64 vh_both(uint8_t *key, u64 kn, uint8_t *msg, u64 n, uint8_t *delta, u64 tn)
{
	hmac_state cs;
	uint8_t tag[64];
	hmac_load_key(&cs, key, (int)kn);
	hmac_tag_generation(&cs, tag, msg, n, (int)tn);
	for (u64 i = 0; i < tn; i++) tag[i] ^= delta[i];
	return (u64)(int64_t)hmac_tag_validation(&cs, tag, msg, n, (int)tn);
}
// key loaded over another one, after a message was processed
extern "C" u64 vh_rekey(uint8_t *key0, u64 kn0, uint8_t *m0, u64 n0, uint8_t *tag0, uint8_t *key, u64 kn, uint8_t *msg, u64 n, uint8_t *tag)
{
	hmac_state cs;
	hmac_load_key(&cs, key0, (int)kn0);
	hmac_tag_generation(&cs, tag0, m0, n0, 32);
	hmac_load_key(&cs, key, (int)kn);
	hmac_tag_generation(&cs, tag, msg, n, 32);
	return 0;
}
extern "C" u64 vh_next(uint8_t *key, u64 kn, uint8_t *m0, u64 n0, uint8_t *tag0, uint8_t *msg, u64 n, uint8_t *tag)
{
	hmac_state cs;
	hmac_load_key(&cs, key, (int)kn);
	u64 r = (u64)(int64_t)hmac_tag_validation(&cs, tag0, m0, n0, 16);
	hmac_tag_generation(&cs, tag, msg, n, 32);
	return r;
}
extern "C" u64 vh_hash(uint8_t *msg, u64 n, uint8_t *out)
{
	sha256_process_message(out, msg, n);
	return 0;
}

extern "C" u64 vh_size() { return sizeof(hmac_state); }
// hist bit 0: the earlier message is validated instead of tagged
extern "C" u64 vh_rel(uint8_t *key0, u64 kn0, u64 hist, uint8_t *m0, u64 n0, uint8_t *key, u64 kn, uint8_t *msg, u64 n, uint8_t *tag, uint8_t *fresh, uint8_t *tag0)
{
	hmac_state cs, f;
	uint8_t t[32];
	memcpy(t, tag0, 32);
	hmac_load_key(&cs, key0, (int)kn0);
	if (hist & 1) hmac_tag_validation(&cs, t, m0, n0, 32);
	else hmac_tag_generation(&cs, t, m0, n0, 32);
	hmac_load_key(&cs, key, (int)kn);
	hmac_tag_generation(&cs, tag, msg, n, 32);
	hmac_load_key(&f, key, (int)kn);
	hmac_tag_generation(&f, fresh, msg, n, 32);
	return 0;
}
// the same key, several messages
extern "C" u64 vh_relmsg(uint8_t *key, u64 kn, u64 hist, uint8_t *m0, u64 n0, uint8_t *msg, u64 n, uint8_t *tag, uint8_t *fresh, uint8_t *tag0)
{
	hmac_state cs, f;
	uint8_t t[32];
	memcpy(t, tag0, 32);
	hmac_load_key(&cs, key, (int)kn);
	if (hist & 1) hmac_tag_validation(&cs, t, m0, n0, 32);
	else hmac_tag_generation(&cs, t, m0, n0, 32);
	hmac_tag_generation(&cs, tag, msg, n, 32);
	hmac_load_key(&f, key, (int)kn);
	hmac_tag_generation(&f, fresh, msg, n, 32);
	return 0;
}
extern "C" u64 vh_junk(uint8_t *junk, uint8_t *key, u64 kn, uint8_t *msg, u64 n, uint8_t *tag, uint8_t *fresh)
{
	hmac_state cs, f;
	memcpy((void *)&cs, junk, sizeof(cs));
	hmac_load_key(&cs, key, (int)kn);
	hmac_tag_generation(&cs, tag, msg, n, 32);
	hmac_load_key(&f, key, (int)kn);
	hmac_tag_generation(&f, fresh, msg, n, 32);
	return 0;
}
