#include <cstdint>
#include <cstring>
#include "rabbit.h"
#define ST rabbit_state
#define LOADIV(cs, iv) rabbit_load_iv(&cs, iv)
#define INIT(cs, key, iv) rabbit_load_key(&cs, key); LOADIV(cs, iv)
#define PROC(cs, out, in, n) rabbit_process_packet(&cs, out, in, n)
#include "stream.inc"
// without an IV
extern "C" u64 vh_noiv(uint8_t *key, uint8_t *in, uint8_t *out, u64 n, uint8_t *in2, uint8_t *out2, u64 n2)
{
	rabbit_state cs;
	rabbit_load_key(&cs, key);
	rabbit_process_packet(&cs, out, in, n);
	rabbit_process_packet(&cs, out2, in2, n2);
	return 0;
}
// an IV after use without one
extern "C" u64 vh_lateiv(uint8_t *key, uint8_t *in0, uint8_t *out0, u64 n0, uint8_t *iv, uint8_t *in, uint8_t *out, u64 n)
{
	rabbit_state cs;
	rabbit_load_key(&cs, key);
	rabbit_process_packet(&cs, out0, in0, n0);
	rabbit_load_iv(&cs, iv);
	rabbit_process_packet(&cs, out, in, n);
	return 0;
}
// a new key on a used object, then its keystream without an IV
extern "C" u64 vh_rekey(uint8_t *key0, uint8_t *iv0, uint8_t *in0, uint8_t *out0, u64 n0, uint8_t *key, uint8_t *in, uint8_t *out, u64 n)
{
	rabbit_state cs;
	rabbit_load_key(&cs, key0);
	rabbit_load_iv(&cs, iv0);
	rabbit_process_packet(&cs, out0, in0, n0);
	rabbit_load_key(&cs, key);
	rabbit_process_packet(&cs, out, in, n);
	return 0;
}
// keystream blocks by the extraction call
extern "C" u64 vh_extract(uint8_t *key, uint8_t *iv, uint8_t *out)
{
	rabbit_state cs;
	uint32_t ks[8];
	rabbit_load_key(&cs, key);
	rabbit_load_iv(&cs, iv);
	rabbit_extract_keystream(&cs, ks);
	rabbit_extract_keystream(&cs, ks + 4);
	memcpy(out, ks, 32);
	return 0;
}

// keystream without an IV, on a used object and on a fresh one
extern "C" u64 vh_norel(uint8_t *key0, uint8_t *iv0, uint8_t *in0, uint8_t *out0, u64 n0, uint8_t *key, uint8_t *in, uint8_t *out, uint8_t *fresh, u64 n)
{
	rabbit_state cs, f;
	rabbit_load_key(&cs, key0);
	rabbit_load_iv(&cs, iv0);
	rabbit_process_packet(&cs, out0, in0, n0);
	rabbit_load_key(&cs, key);
	rabbit_process_packet(&cs, out, in, n);
	rabbit_load_key(&f, key);
	rabbit_process_packet(&f, fresh, in, n);
	return 0;
}
