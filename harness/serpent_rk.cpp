// needs the round-key array of the state structure
#include <cstdint>
#include <cstring>
#include "serpent.h"
typedef uint64_t u64;
static_assert(sizeof(serpent_state) == 400, "layout");
extern "C" u64 vh_schedule(uint8_t *key, u64 kn, uint8_t *out)
{
	serpent_state cs;
	serpent_key_schedule(&cs, key, (int)kn);
	memcpy(out, cs.RK, 400);
	return 0;
}
