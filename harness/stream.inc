// Entries common to the stream ciphers. The including file defines ST, INIT(cs,key,iv), PROC(cs,out,in,n) and,
// where the IV can be loaded alone, LOADIV(cs,iv).
typedef uint64_t u64;
extern "C" u64 vh_packet(uint8_t *key, uint8_t *iv, uint8_t *in, uint8_t *out, u64 n)
{
	ST cs;
	INIT(cs, key, iv);
	PROC(cs, out, in, n);
	return 0;
}
extern "C" u64 vh_two(uint8_t *key, uint8_t *iv, uint8_t *in, uint8_t *out, u64 n, uint8_t *in2, uint8_t *out2, u64 n2)
{
	ST cs;
	INIT(cs, key, iv);
	PROC(cs, out, in, n);
	PROC(cs, out2, in2, n2);
	return 0;
}
extern "C" u64 vh_three(uint8_t *key, uint8_t *iv, uint8_t *in, uint8_t *out, u64 n, uint8_t *in2, uint8_t *out2, u64 n2, uint8_t *in3, uint8_t *out3, u64 n3)
{
	ST cs;
	INIT(cs, key, iv);
	PROC(cs, out, in, n);
	PROC(cs, out2, in2, n2);
	PROC(cs, out3, in3, n3);
	return 0;
}
extern "C" u64 vh_reinit(uint8_t *key0, uint8_t *iv0, uint8_t *in0, uint8_t *out0, u64 n0, uint8_t *key, uint8_t *iv, uint8_t *in, uint8_t *out, u64 n)
{
	ST cs;
	INIT(cs, key0, iv0);
	PROC(cs, out0, in0, n0);
	INIT(cs, key, iv);
	PROC(cs, out, in, n);
	return 0;
}
extern "C" u64 vh_reinit2(uint8_t *key0, uint8_t *iv0, uint8_t *in0, uint8_t *out0, u64 n0, uint8_t *key, uint8_t *iv, uint8_t *in, uint8_t *out, u64 n)
{
	// the object is initialised a second time right away, used twice, then initialised with the final key
	ST cs;
	INIT(cs, key0, iv0);
	INIT(cs, key0, iv);
	PROC(cs, out0, in0, n0);
	PROC(cs, out0, in0, n0);
	INIT(cs, key, iv);
	PROC(cs, out, in, n);
	return 0;
}
extern "C" u64 vh_inplace(uint8_t *key, uint8_t *iv, uint8_t *buf, u64 n)
{
	ST cs;
	INIT(cs, key, iv);
	PROC(cs, buf, buf, n);
	return 0;
}
// sender and receiver with separate states over two packets
extern "C" u64 vh_ends(uint8_t *key, uint8_t *iv, uint8_t *in, u64 n, uint8_t *in2, u64 n2, uint8_t *ct, uint8_t *ct2, uint8_t *out, uint8_t *out2)
{
	ST a, b;
	INIT(a, key, iv);
	INIT(b, key, iv);
	PROC(a, ct, in, n);
	PROC(a, ct2, in2, n2);
	PROC(b, out, ct, n);
	PROC(b, out2, ct2, n2);
	return 0;
}
#ifdef LOADIV
extern "C" u64 vh_reiv(uint8_t *key, uint8_t *iv0, uint8_t *in0, uint8_t *out0, u64 n0, uint8_t *iv, uint8_t *in, uint8_t *out, u64 n)
{
	ST cs;
	INIT(cs, key, iv0);
	PROC(cs, out0, in0, n0);
	LOADIV(cs, iv);
	PROC(cs, out, in, n);
	return 0;
}
#endif

// ---- two runs of the real code: an object with a past against a fresh object
extern "C" u64 vh_size() { return sizeof(ST); }
// hist bit 0: the first packet twice, bit 1: initialised again in between, bit 2: in place
extern "C" u64 vh_rel(uint8_t *key0, uint8_t *iv0, u64 hist, uint8_t *in0, uint8_t *out0, u64 n0, uint8_t *key, uint8_t *iv, uint8_t *in, uint8_t *out, uint8_t *fresh, u64 n)
{
	ST cs, f;
	INIT(cs, key0, iv0);
	if (hist & 2) { PROC(cs, out0, in0, n0); INIT(cs, key, iv0); }
	if (hist & 1) { PROC(cs, out0, in0, n0); }
	if (hist & 4) { memcpy(out0, in0, n0); PROC(cs, out0, out0, n0); }
	else { PROC(cs, out0, in0, n0); }
	INIT(cs, key, iv);
	PROC(cs, out, in, n);
	INIT(f, key, iv);
	PROC(f, fresh, in, n);
	return 0;
}
// the object holds arbitrary bytes before it is initialised
extern "C" u64 vh_junk(uint8_t *junk, uint8_t *key, uint8_t *iv, uint8_t *in, uint8_t *out, uint8_t *fresh, u64 n)
{
	ST cs, f;
	memcpy((void *)&cs, junk, sizeof(ST));
	INIT(cs, key, iv);
	PROC(cs, out, in, n);
	INIT(f, key, iv);
	PROC(f, fresh, in, n);
	return 0;
}
// one object per end and per way of calling; buf: in place
extern "C" u64 vh_inrel(uint8_t *key, uint8_t *iv, uint8_t *in, uint8_t *buf, uint8_t *out, u64 n, uint8_t *in2, uint8_t *buf2, uint8_t *out2, u64 n2)
{
	ST a, b;
	INIT(a, key, iv);
	INIT(b, key, iv);
	memcpy(buf, in, n);
	memcpy(buf2, in2, n2);
	PROC(a, out, in, n);
	PROC(a, out2, in2, n2);
	PROC(b, buf, buf, n);
	PROC(b, buf2, buf2, n2);
	return 0;
}
// sender and receiver over three packets; the receiver works in place
extern "C" u64 vh_ends3(uint8_t *key, uint8_t *iv, uint8_t *in, uint8_t *out, u64 n, uint8_t *in2, uint8_t *out2, u64 n2, uint8_t *in3, uint8_t *out3, u64 n3)
{
	ST a, b;
	INIT(a, key, iv);
	INIT(b, key, iv);
	PROC(a, out, in, n);
	PROC(a, out2, in2, n2);
	PROC(a, out3, in3, n3);
	PROC(b, out, out, n);
	PROC(b, out2, out2, n2);
	PROC(b, out3, out3, n3);
	return 0;
}
#ifdef LOADIV
extern "C" u64 vh_reivrel(uint8_t *key, uint8_t *iv0, uint8_t *in0, uint8_t *out0, u64 n0, uint8_t *iv, uint8_t *in, uint8_t *out, uint8_t *fresh, u64 n)
{
	ST cs, f;
	INIT(cs, key, iv0);
	PROC(cs, out0, in0, n0);
	LOADIV(cs, iv);
	PROC(cs, out, in, n);
	INIT(f, key, iv);
	PROC(f, fresh, in, n);
	return 0;
}
#endif
