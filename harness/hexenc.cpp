#include <cstdint>
#include <cstring>
#include "encoder.h"
typedef uint64_t u64;
extern "C" u64 vh_encode(uint8_t *in, uint8_t *out, u64 n)
{
	hex_encode((char *)out, in, (int)n);
	return 0;
}
extern "C" u64 vh_decode(uint8_t *in, uint8_t *out, u64 n)
{
	hex_decode(out, (const char *)in, (int)n);
	return 0;
}
extern "C" u64 vh_trip(uint8_t *in, uint8_t *hex, uint8_t *out, u64 n)
{
	hex_encode((char *)hex, in, (int)n);
	hex_decode(out, (const char *)hex, (int)(2 * n));
	return 0;
}
