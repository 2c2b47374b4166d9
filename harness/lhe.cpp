#include "gmpops.h"
#include "labeled_he.h"
#include "joye_libert.h"
// z: 0 N, 1 y, 2 p; 3 result; 4,5,6 messages; 7,8,9 masks (labels when encrypting); 10 constant; 11... ciphertexts
typedef uint32_t u32;
static void load(hc128_state *s, uint8_t *hc)
{
	uint8_t kk[16], iv[16];
	memcpy(kk, hc, 16);
	memcpy(iv, hc + 16, 16);
	hc128_initialize(s, kk, iv);
}
OP(enc)            // label 7 -> mask 8, ciphertext 11, 12
{
	hc128_state s;
	he_ct c;
	load(&s, hc);
	he_encrypt(&c, vst, &s, z[8], z[4], z[1], z[0], z[7], (u32)k);
	mpz_set(z[11], c.a);
	mpz_set(z[12], c.beta);
	he_decrypt(z[3], &c, z[2], z[1], (u32)k);
	joye_libert_decrypt(z[13], c.beta, z[2], z[1], (u32)k);
}
OP(enc2)           // two messages from one stream: labels 7, 8 -> masks 9, 10
{
	hc128_state s;
	he_ct c;
	load(&s, hc);
	he_encrypt(&c, vst, &s, z[9], z[4], z[1], z[0], z[7], (u32)k);
	he_decrypt(z[3], &c, z[2], z[1], (u32)k);
	he_encrypt(&c, vst, &s, z[10], z[5], z[1], z[0], z[8], (u32)k);
	he_decrypt(z[13], &c, z[2], z[1], (u32)k);
}
static void ct(he_ct *c, mpz_t *z, int m, int b, u64 k)
{
	mpz_t s;
	mpz_init(s);
	mpz_ui_pow_ui(s, 2, k);
	mpz_sub(c->a, z[m], z[b]);
	mpz_mod(c->a, c->a, s);
	joye_libert_encrypt(c->beta, vst, z[b], z[1], z[0], (u32)k);
}
#define CT(n, m, b) he_ct n; ct(&n, z, m, b, k)
OP(dec1) { CT(c, 4, 7); he_decrypt(z[3], &c, z[2], z[1], (u32)k); }
OP(add) { CT(c1, 4, 7); CT(c2, 5, 8); he_ct r; he_eval_add(&r, &c1, &c2, z[0], (u32)k); he_decrypt(z[3], &r, z[2], z[1], (u32)k); }
OP(add3) { CT(c1, 4, 7); CT(c2, 5, 8); CT(c3, 6, 9); he_ct r, t; he_eval_add(&r, &c1, &c2, z[0], (u32)k); he_eval_add(&t, &r, &c3, z[0], (u32)k);
	he_decrypt(z[3], &t, z[2], z[1], (u32)k); }
OP(sub) { CT(c1, 4, 7); CT(c2, 5, 8); he_ct r; he_eval_sub(&r, &c1, &c2, z[0], (u32)k); he_decrypt(z[3], &r, z[2], z[1], (u32)k); }
OP(cmult) { CT(c1, 4, 7); he_ct r; he_eval_cmult(&r, &c1, z[10], z[0], (u32)k); he_decrypt(z[3], &r, z[2], z[1], (u32)k); }
OP(lin)            // (c1 - c2) * constant + c3
{
	CT(c1, 4, 7); CT(c2, 5, 8); CT(c3, 6, 9);
	he_ct r, s, t;
	he_eval_sub(&r, &c1, &c2, z[0], (u32)k);
	he_eval_cmult(&s, &r, z[10], z[0], (u32)k);
	he_eval_add(&t, &s, &c3, z[0], (u32)k);
	he_decrypt(z[3], &t, z[2], z[1], (u32)k);
}
// the masks of product programs, as LabeledHE/main.cpp computes them
static void mm(mpz_ptr r, mpz_ptr a, mpz_ptr b, u64 k)
{
	mpz_t s;
	mpz_init(s);
	mpz_ui_pow_ui(s, 2, k);
	mpz_mul(r, a, b);
	mpz_mod(r, r, s);
}
#define MUL2(r, rb, c1, b1, c2, b2) mpz_t r, rb; mpz_init(r); mpz_init(rb); he_eval_mult(r, vst, &c1, &c2, z[1], z[0], (u32)k); mm(rb, z[b1], z[b2], k)
static void mul3(mpz_ptr r, mpz_ptr rb, mpz_t *z, he_ct *c1, he_ct *c2, he_ct *c3, int b1, int b2, int b3, u64 k)
{
	mpz_t x, y, w;
	mpz_init(x); mpz_init(y); mpz_init(w);
	mm(x, z[b1], z[b2], k);
	mm(y, z[b1], z[b3], k);
	mm(w, z[b2], z[b3], k);
	joye_libert_encrypt(x, vst, x, z[1], z[0], (u32)k);
	joye_libert_encrypt(y, vst, y, z[1], z[0], (u32)k);
	joye_libert_encrypt(w, vst, w, z[1], z[0], (u32)k);
	he_eval_mult_3(r, vst, c1, c2, c3, x, y, w, z[1], z[0], (u32)k);
	mm(rb, z[b1], z[b2], k);
	mm(rb, rb, z[b3], k);
}
#define MUL3(r, rb) mpz_t r, rb; mpz_init(r); mpz_init(rb); mul3(r, rb, z, &c1, &c2, &c3, 7, 8, 9, k)
OP(mult) { CT(c1, 4, 7); CT(c2, 5, 8); MUL2(r, b, c1, 7, c2, 8); he_decrypt(z[3], r, b, z[2], z[1], (u32)k); }
OP(square) { CT(c1, 4, 7); MUL2(r, b, c1, 7, c1, 7); he_decrypt(z[3], r, b, z[2], z[1], (u32)k); }
OP(mult3) { CT(c1, 4, 7); CT(c2, 5, 8); CT(c3, 6, 9); MUL3(r, b); he_decrypt(z[3], r, b, z[2], z[1], (u32)k); }
OP(multadd)        // m1*m2 + m1*m3
{
	CT(c1, 4, 7); CT(c2, 5, 8); CT(c3, 6, 9);
	MUL2(r, b, c1, 7, c2, 8);
	MUL2(s, d, c1, 7, c3, 9);
	mpz_t t;
	mpz_init(t);
	he_eval_add(t, r, s, z[0]);
	mpz_add(b, b, d);
	he_decrypt(z[3], t, b, z[2], z[1], (u32)k);
}
OP(multsub)        // m1*m2 - m2*m3
{
	CT(c1, 4, 7); CT(c2, 5, 8); CT(c3, 6, 9);
	MUL2(r, b, c1, 7, c2, 8);
	MUL2(s, d, c2, 8, c3, 9);
	mpz_t t;
	mpz_init(t);
	he_eval_sub(t, r, s, z[0]);
	mpz_sub(b, b, d);
	he_decrypt(z[3], t, b, z[2], z[1], (u32)k);
}
OP(tripdbladd)     // m1*m2*m3 + m1*m2
{
	CT(c1, 4, 7); CT(c2, 5, 8); CT(c3, 6, 9);
	MUL2(r, b, c1, 7, c2, 8);
	MUL3(s, d);
	mpz_t t;
	mpz_init(t);
	he_eval_add(t, r, s, z[0]);
	mpz_add(b, b, d);
	he_decrypt(z[3], t, b, z[2], z[1], (u32)k);
}
OP(tripdblsub)     // m1*m2*m3 - m1*m2
{
	CT(c1, 4, 7); CT(c2, 5, 8); CT(c3, 6, 9);
	MUL2(r, b, c1, 7, c2, 8);
	MUL3(s, d);
	mpz_t t;
	mpz_init(t);
	he_eval_sub(t, s, r, z[0]);
	mpz_sub(b, d, b);
	he_decrypt(z[3], t, b, z[2], z[1], (u32)k);
}
OP(multc)          // constant * (m1*m2)
{
	CT(c1, 4, 7); CT(c2, 5, 8);
	MUL2(r, b, c1, 7, c2, 8);
	mpz_t t;
	mpz_init(t);
	he_eval_cmult(t, r, z[10], z[0]);
	mm(b, b, z[10], k);
	he_decrypt(z[3], t, b, z[2], z[1], (u32)k);
}
OP(multlin)        // (m1 + m2) * (constant * m3)
{
	CT(c1, 4, 7); CT(c2, 5, 8); CT(c3, 6, 9);
	he_ct s, t;
	mpz_t b, d, r;
	mpz_init(b); mpz_init(d); mpz_init(r);
	he_eval_add(&s, &c1, &c2, z[0], (u32)k);
	he_eval_cmult(&t, &c3, z[10], z[0], (u32)k);
	he_eval_mult(r, vst, &s, &t, z[1], z[0], (u32)k);
	mpz_add(b, z[7], z[8]);
	mm(d, z[9], z[10], k);
	mm(b, b, d, k);
	he_decrypt(z[3], r, b, z[2], z[1], (u32)k);
}
// results stored over an operand
OP(add_1) { CT(c1, 4, 7); CT(c2, 5, 8); he_eval_add(&c1, &c1, &c2, z[0], (u32)k); he_decrypt(z[3], &c1, z[2], z[1], (u32)k); }
OP(add_2) { CT(c1, 4, 7); CT(c2, 5, 8); he_eval_add(&c2, &c1, &c2, z[0], (u32)k); he_decrypt(z[3], &c2, z[2], z[1], (u32)k); }
OP(add_12) { CT(c1, 4, 7); he_eval_add(&c1, &c1, &c1, z[0], (u32)k); he_decrypt(z[3], &c1, z[2], z[1], (u32)k); }
OP(sub_1) { CT(c1, 4, 7); CT(c2, 5, 8); he_eval_sub(&c1, &c1, &c2, z[0], (u32)k); he_decrypt(z[3], &c1, z[2], z[1], (u32)k); }
OP(sub_2) { CT(c1, 4, 7); CT(c2, 5, 8); he_eval_sub(&c2, &c1, &c2, z[0], (u32)k); he_decrypt(z[3], &c2, z[2], z[1], (u32)k); }
OP(cmult_1) { CT(c1, 4, 7); he_eval_cmult(&c1, &c1, z[10], z[0], (u32)k); he_decrypt(z[3], &c1, z[2], z[1], (u32)k); }
OP(multadd_1)
{
	CT(c1, 4, 7); CT(c2, 5, 8); CT(c3, 6, 9);
	MUL2(r, b, c1, 7, c2, 8);
	MUL2(s, d, c1, 7, c3, 9);
	he_eval_add(r, r, s, z[0]);
	mpz_add(b, b, d);
	he_decrypt(z[3], r, b, z[2], z[1], (u32)k);
}
OP(multsub_1)
{
	CT(c1, 4, 7); CT(c2, 5, 8); CT(c3, 6, 9);
	MUL2(r, b, c1, 7, c2, 8);
	MUL2(s, d, c2, 8, c3, 9);
	he_eval_sub(r, r, s, z[0]);
	mpz_sub(b, b, d);
	he_decrypt(z[3], r, b, z[2], z[1], (u32)k);
}
OP(multsub_2)
{
	CT(c1, 4, 7); CT(c2, 5, 8); CT(c3, 6, 9);
	MUL2(r, b, c1, 7, c2, 8);
	MUL2(s, d, c2, 8, c3, 9);
	he_eval_sub(s, r, s, z[0]);
	mpz_sub(b, b, d);
	he_decrypt(z[3], s, b, z[2], z[1], (u32)k);
}
OP(multc_1)
{
	CT(c1, 4, 7); CT(c2, 5, 8);
	MUL2(r, b, c1, 7, c2, 8);
	he_eval_cmult(r, r, z[10], z[0]);
	mm(b, b, z[10], k);
	he_decrypt(z[3], r, b, z[2], z[1], (u32)k);
}
