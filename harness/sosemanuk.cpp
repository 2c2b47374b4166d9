#include <cstdint>
#include <cstring>
#include "sosemanuk.h"
#define ST sosemanuk_state
#define LOADIV(cs, iv) sosemanuk_load_iv(&cs, iv)
#define INIT(cs, key, iv) sosemanuk_load_key(&cs, key, 16); LOADIV(cs, iv)
#define PROC(cs, out, in, n) sosemanuk_process_packet(&cs, out, in, n)
#include "stream.inc"
extern "C" u64 vh_key(uint8_t *key, u64 kn, uint8_t *iv, uint8_t *in, uint8_t *out, u64 n)
{
	sosemanuk_state cs;
	sosemanuk_load_key(&cs, key, (int)kn);
	sosemanuk_load_iv(&cs, iv);
	sosemanuk_process_packet(&cs, out, in, n);
	return 0;
}
