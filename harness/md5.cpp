#include <cstdint>
#include <cstring>
#include "md5.h"
extern "C" u64 vh_whole(uint8_t *msg, u64 n, uint8_t *out)
{
	MD5_CTX x;
	MD5_process_packet(&x, out, msg, (u32)n);
	return 0;
}
extern "C" u64 vh_three(uint8_t *a, u64 n, uint8_t *b, u64 n2, uint8_t *c, u64 n3, uint8_t *out)
{
	MD5_CTX x;
	MD5Init(&x);
	MD5Update(&x, a, (u32)n);
	MD5Update(&x, b, (u32)n2);
	MD5Update(&x, c, (u32)n3);
	MD5Final(out, &x);
	return 0;
}
// fed in pieces of k bytes
extern "C" u64 vh_pieces(uint8_t *a, u64 n, u64 k, uint8_t *out)
{
	MD5_CTX x;
	MD5Init(&x);
	for (u64 i = 0; i < n; i += k)
		MD5Update(&x, a + i, (u32)(n - i < k ? n - i : k));
	MD5Final(out, &x);
	return 0;
}
// context initialised again after an unfinished and a finished message
extern "C" u64 vh_again(uint8_t *a, u64 n, uint8_t *b, u64 n2, uint8_t *out2, uint8_t *c, u64 n3, uint8_t *out)
{
	MD5_CTX x;
	MD5Init(&x);
	MD5Update(&x, a, (u32)n);
	MD5Init(&x);
	MD5Update(&x, b, (u32)n2);
	MD5Final(out2, &x);
	MD5Init(&x);
	MD5Update(&x, c, (u32)n3);
	MD5Final(out, &x);
	return 0;
}

extern "C" u64 vh_size() { return sizeof(MD5_CTX); }
// hist bit 0: the earlier message is finished
extern "C" u64 vh_rel(uint8_t *a, u64 n0, u64 hist, uint8_t *c, u64 n, uint8_t *out, uint8_t *fresh)
{
	MD5_CTX x, f;
	uint8_t t[16];
	MD5Init(&x);
	MD5Update(&x, a, (u32)n0);
	if (hist & 1) MD5Final(t, &x);
	MD5Init(&x);
	MD5Update(&x, c, (u32)n);
	MD5Final(out, &x);
	MD5Init(&f);
	MD5Update(&f, c, (u32)n);
	MD5Final(fresh, &f);
	return 0;
}
extern "C" u64 vh_junk(uint8_t *junk, uint8_t *c, u64 n, uint8_t *out, uint8_t *fresh)
{
	MD5_CTX x, f;
	memcpy((void *)&x, junk, sizeof(x));
	MD5Init(&x);
	MD5Update(&x, c, (u32)n);
	MD5Final(out, &x);
	MD5Init(&f);
	MD5Update(&f, c, (u32)n);
	MD5Final(fresh, &f);
	return 0;
}
