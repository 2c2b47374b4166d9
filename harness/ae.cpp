// The authenticated-encryption example, run with a message that somebody changes between tag generation and validation.
#include "ae_shim.h"
uint8_t *vh_lits, *vh_log;
u64 vh_nlit, vh_nlog;
namespace std { inline namespace vh { ostream cout, cerr; } }
#include "../Authentication/HMAC-SHA-256/hmac.h"
#include "../BlockCiphers/AES/AES/AES_CFB/aes_cfb.h"
#include "../StreamCiphers/HC-128/hc128.h"

static uint8_t *pts;
static u64 *info;
static u64 ngen, nval, target;
#ifdef VH_NATIVE
static uint8_t *flip;
static u64 delta;
static bool bad;
struct vh_stopped { int c; };
extern "C" void vh_exit(int c) { throw vh_stopped{c}; }
static void vh_taint(uint8_t *tag, u64 t, uint8_t *msg, u64 n) { flip = msg + (int64_t)delta; *flip ^= 1; }
static int vh_verdict(uint8_t *tag, u64 t, uint8_t *msg, u64 n) { return 2; }
static void vh_rejected(uint8_t *msg) { if (flip) bad = true; }
static int vh_consume(uint8_t *p, u64 n) { if (bad) info[3]++; if (flip && flip >= p && flip < p + n) info[2]++; return 0; }
static void vh_step() { if (bad) info[3]++; }
#else
extern "C" void vh_exit(int c);
extern "C" void vh_taint(uint8_t *tag, u64 t, uint8_t *msg, u64 n);
extern "C" int vh_verdict(uint8_t *tag, u64 t, uint8_t *msg, u64 n);
extern "C" int vh_consume(uint8_t *p, u64 n);
extern "C" void vh_step();
static void vh_rejected(uint8_t *msg) {}
#endif

static uint8_t *lastin;
static u64 lastn;
static void clr(uint8_t *p, u64 n) { for (u64 i = 0; i < n; i++) p[i] = 0; }
static void w_tag_generation(hmac_state *cs, uint8_t *tag, uint8_t *msg, u64 n, int t)
{
	vh_step();
	hmac_tag_generation(cs, tag, msg, n, t);
	if (ngen < 4) info[24 + ngen] = lastn;
	if (++ngen == target) vh_taint(tag, t, msg, n);
}
static int w_tag_validation(hmac_state *cs, uint8_t *tag, uint8_t *msg, u64 n, int t)
{
	int r = vh_verdict(tag, t, msg, n);
	if (r == 2) r = hmac_tag_validation(cs, tag, msg, n, t);
	if (!r) vh_rejected(msg);
	if (r && nval < 4) info[16 + nval++] = vh_nlog;
	return r;
}
static void w_cfb_process(aes_state *cs, uint8_t *out, uint8_t *in, int n, int mode)
{
	if (vh_consume(in, n)) { clr(out, n); return; }
	if (mode == ENCRYPT && ngen < 4) for (int i = 0; i < n && i < 512; i++) pts[512 * ngen + i] = in[i];
	lastn = n;
	aes_cfb_process_packet(cs, out, in, n, mode);
}
static void w_cfb_init(aes_state *cs, uint8_t *key, uint8_t *iv)
{
	if (vh_consume(iv, 16) + vh_consume(key, 16)) clr(iv, 0);
	else { aes_cfb_initialize(cs, key, iv); return; }
	uint8_t z[16] = {0};
	aes_cfb_initialize(cs, z, z);
}
static void w_hc_init(hc128_state *cs, uint8_t *key, uint8_t *iv)
{
	if (vh_consume(iv, 16) + vh_consume(key, 16)) {
		uint8_t z[16] = {0};
		hc128_initialize(cs, z, z);
		return;
	}
	hc128_initialize(cs, key, iv);
}
static void w_hc_process(hc128_state *cs, uint8_t *out, uint8_t *in, u64 n)
{
	if (vh_consume(in, n)) { clr(out, n); return; }
	if (ngen == 1) for (u64 i = 0; i < n && i < 512; i++) pts[512 * ngen + i] = in[i];
	lastn = n;
	hc128_process_packet(cs, out, in, n);
}
int main() __asm__("vh_example");
extern "C" int vh_example();
#define exit vh_exit
#define _exit vh_exit
#define _Exit vh_exit
#define quick_exit vh_exit
namespace std { using ::vh_exit; }
#define hmac_tag_generation w_tag_generation
#define hmac_tag_validation w_tag_validation
#define aes_cfb_process_packet w_cfb_process
#define aes_cfb_initialize w_cfb_init
#define hc128_initialize w_hc_init
#define hc128_process_packet w_hc_process
#include "example_ae.cpp"
#undef exit

extern "C" u64 vh_ae(uint8_t *lits, uint8_t *log, uint8_t *p, uint8_t *inf, u64 tgt, u64 d)
{
	vh_lits = lits;
	vh_log = log;
	vh_nlit = vh_nlog = ngen = nval = lastn = 0;
	pts = p;
	info = (u64 *)inf;
	target = tgt;
#ifdef VH_NATIVE
	delta = d;
	flip = 0;
	bad = false;
	u64 r;
	try { r = (u64)vh_example(); } catch (vh_stopped &e) { r = 1000 + (e.c & 255); }
#else
	u64 r = (u64)vh_example();
#endif
	info[0] = vh_nlog;
	info[1] = nval;
	return r;
}
