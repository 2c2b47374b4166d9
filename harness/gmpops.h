// Values are handed over as an array of mpz_t (symbolic runs) or as byte strings (native runs). The native program delivers
// chosen values wherever the code under test asks GMP for random numbers.
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <gmp.h>
typedef uint64_t u64;
static const int SZ = 64;          // bytes per value: sign, then magnitude, least significant byte first
static const uint8_t *vq;
static u64 vqn, vqi, vseed = 1, vcalls;
static gmp_randstate_t vst;

static void vget(mpz_ptr z, const uint8_t *b)
{
	mpz_import(z, SZ - 1, -1, 1, 0, 0, b + 1);
	if (b[0]) mpz_neg(z, z);
}

static void vput(uint8_t *b, mpz_srcptr z)
{
	memset(b, 0, SZ);
	if (mpz_sizeinbase(z, 2) > 8 * (SZ - 1)) { b[0] = 9; return; }
	mpz_export(b + 1, 0, -1, 1, 0, 0, z);
	b[0] = mpz_sgn(z) < 0;
}

#define OP(name) \
	static void op_##name(mpz_t *z, u64 k, uint8_t *hc); \
	extern "C" u64 vh_##name(mpz_t *z, u64 k, uint8_t *hc) { gmp_randinit_mt(vst); op_##name(z, k, hc); return 0; } \
	extern "C" u64 vh_n_##name(uint8_t *in, uint8_t *out, u64 n, u64 k, uint8_t *hc, uint8_t *q, u64 nq) { return vrun(op_##name, in, out, n, k, hc, q, nq); } \
	static void op_##name(mpz_t *z, u64 k, uint8_t *hc)

static u64 vrun(void (*f)(mpz_t *, u64, uint8_t *), uint8_t *in, uint8_t *out, u64 n, u64 k, uint8_t *hc, uint8_t *q, u64 nq)
{
	mpz_t z[32];
	gmp_randinit_mt(vst);
	vq = q; vqn = nq; vqi = 0; vseed = 1; vcalls = 0;
	for (u64 i = 0; i < n; i++) { mpz_init(z[i]); vget(z[i], in + SZ * i); }
	f(z, k, hc);
	for (u64 i = 0; i < n; i++) { vput(out + SZ * i, z[i]); mpz_clear(z[i]); }
	return vcalls;
}

#ifdef VH_NATIVE
static void vnext(mpz_ptr r, u64 bits)
{
	vcalls++;
	if (vqi < vqn) { vget(r, vq + SZ * vqi++); return; }
	mpz_set_ui(r, 0);
	for (u64 i = 0; i < bits + 32; i += 16) {
		vseed = vseed * 6364136223846793005ull + 1442695040888963407ull;
		mpz_mul_2exp(r, r, 16);
		mpz_add_ui(r, r, vseed >> 48);
	}
}
extern "C" void __gmpz_urandomm(mpz_ptr r, gmp_randstate_ptr, mpz_srcptr n)
{
	mpz_t t;
	mpz_init(t);
	vnext(t, mpz_sizeinbase(n, 2));
	mpz_mod(r, t, n);
	mpz_clear(t);
}
extern "C" void __gmpz_urandomb(mpz_ptr r, gmp_randstate_ptr, mp_bitcnt_t n)
{
	mpz_t t;
	mpz_init(t);
	vnext(t, n);
	mpz_fdiv_r_2exp(r, t, n);
	mpz_clear(t);
}
#endif
