#include <cstdint>
#include <cstring>
#include "sha-256.h"
typedef uint64_t u64;
extern "C" u64 vh_hash(uint8_t *msg, u64 n, uint8_t *out)
{
	sha256_process_message(out, msg, n);
	return 0;
}
extern "C" u64 vh_twice(uint8_t *m0, u64 n0, uint8_t *o0, uint8_t *msg, u64 n, uint8_t *out)
{
	sha256_process_message(o0, m0, n0);
	sha256_process_message(out, msg, n);
	return 0;
}
