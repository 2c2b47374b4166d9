#include <cstdint>
#include <cstring>
#include "serpent.h"
typedef uint64_t u64;
// the three states handed out after rounds 12, 18 and 24
extern "C" u64 vh_block(uint8_t *key, u64 kn, uint8_t *in, uint8_t *out)
{
	serpent_state cs;
	uint32_t i[4], o[12];
	memcpy(i, in, 16);
	serpent_key_schedule(&cs, key, (int)kn);
	serpent_process_packet(&cs, o, i, 16);
	memcpy(out, o, 48);
	memcpy(in, i, 16);
	return 0;
}
extern "C" u64 vh_rekey(uint8_t *key0, u64 kn0, uint8_t *key, u64 kn, uint8_t *in, uint8_t *out)
{
	serpent_state cs;
	uint32_t i[4], o[12];
	memcpy(i, in, 16);
	serpent_key_schedule(&cs, key0, (int)kn0);
	serpent_process_packet(&cs, o, i, 16);
	serpent_key_schedule(&cs, key, (int)kn);
	serpent_process_packet(&cs, o, i, 16);
	memcpy(out, o, 48);
	return 0;
}
extern "C" u64 vh_sbox(uint8_t *in, uint8_t *out)
{
	uint32_t x[4];
	memcpy(x, in, 16);
	serpent1(x, x + 1, x + 2, x + 3);
	memcpy(out, x, 16);
	return 0;
}

extern "C" u64 vh_rel(uint8_t *key0, u64 kn0, uint8_t *key, u64 kn, uint8_t *in, uint8_t *out, uint8_t *fresh)
{
	serpent_state cs, f;
	uint32_t i[4], o[12];
	memcpy(i, in, 16);
	serpent_key_schedule(&cs, key0, (int)kn0);
	serpent_process_packet(&cs, o, i, 16);
	serpent_key_schedule(&cs, key, (int)kn);
	serpent_process_packet(&cs, o, i, 16);
	memcpy(out, o, 48);
	serpent_key_schedule(&f, key, (int)kn);
	serpent_process_packet(&f, o, i, 16);
	memcpy(fresh, o, 48);
	return 0;
}
