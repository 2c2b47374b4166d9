#include "gmpops.h"
#include "joye_libert.h"
// z: 0 N, 1 y, 2 p, 3... operands
OP(enc) { joye_libert_encrypt(z[4], vst, z[3], z[1], z[0], (uint32_t)k); }
OP(encip) { joye_libert_encrypt(z[3], vst, z[3], z[1], z[0], (uint32_t)k); joye_libert_decrypt(z[5], z[3], z[2], z[1], (uint32_t)k); }
OP(dec) { joye_libert_decrypt(z[5], z[3], z[2], z[1], (uint32_t)k); }
OP(trip)
{
	joye_libert_encrypt(z[4], vst, z[3], z[1], z[0], (uint32_t)k);
	joye_libert_decrypt(z[5], z[4], z[2], z[1], (uint32_t)k);
}
OP(trip2)          // the same objects are used again
{
	joye_libert_encrypt(z[4], vst, z[6], z[1], z[0], (uint32_t)k);
	joye_libert_decrypt(z[5], z[4], z[2], z[1], (uint32_t)k);
	joye_libert_encrypt(z[4], vst, z[3], z[1], z[0], (uint32_t)k);
	joye_libert_decrypt(z[5], z[4], z[2], z[1], (uint32_t)k);
}
OP(add)
{
	joye_libert_encrypt(z[6], vst, z[3], z[1], z[0], (uint32_t)k);
	joye_libert_encrypt(z[7], vst, z[4], z[1], z[0], (uint32_t)k);
	mpz_mul(z[6], z[6], z[7]);
	mpz_mod(z[6], z[6], z[0]);
	joye_libert_decrypt(z[5], z[6], z[2], z[1], (uint32_t)k);
}
OP(add3)
{
	joye_libert_encrypt(z[6], vst, z[3], z[1], z[0], (uint32_t)k);
	joye_libert_encrypt(z[7], vst, z[4], z[1], z[0], (uint32_t)k);
	mpz_mul(z[6], z[6], z[7]);
	mpz_mod(z[6], z[6], z[0]);
	joye_libert_encrypt(z[7], vst, z[8], z[1], z[0], (uint32_t)k);
	mpz_mul(z[6], z[6], z[7]);
	mpz_mod(z[6], z[6], z[0]);
	joye_libert_decrypt(z[5], z[6], z[2], z[1], (uint32_t)k);
}
OP(pow)
{
	joye_libert_encrypt(z[6], vst, z[3], z[1], z[0], (uint32_t)k);
	mpz_powm(z[6], z[6], z[4], z[0]);
	joye_libert_decrypt(z[5], z[6], z[2], z[1], (uint32_t)k);
}
OP(addpow)         // c1 * c2^constant
{
	joye_libert_encrypt(z[6], vst, z[3], z[1], z[0], (uint32_t)k);
	joye_libert_encrypt(z[7], vst, z[4], z[1], z[0], (uint32_t)k);
	mpz_powm(z[7], z[7], z[8], z[0]);
	mpz_mul(z[6], z[6], z[7]);
	mpz_mod(z[6], z[6], z[0]);
	joye_libert_decrypt(z[5], z[6], z[2], z[1], (uint32_t)k);
}
OP(sub)
{
	joye_libert_encrypt(z[6], vst, z[3], z[1], z[0], (uint32_t)k);
	joye_libert_encrypt(z[7], vst, z[4], z[1], z[0], (uint32_t)k);
	mpz_invert(z[7], z[7], z[0]);
	mpz_mul(z[6], z[6], z[7]);
	mpz_mod(z[6], z[6], z[0]);
	joye_libert_decrypt(z[5], z[6], z[2], z[1], (uint32_t)k);
}
// z: 0 N, 1 y, 2 p; hc: message bits and key bits
OP(keygen) { joye_libert_keygen(z[0], z[1], z[2], (uint32_t)k, (uint32_t)(hc[0] + 256 * hc[1])); }
