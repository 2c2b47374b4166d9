#include <cstdint>
#include <cstring>
#include "hc128.h"
#define ST hc128_state
#define INIT(cs, key, iv) hc128_initialize(&cs, key, iv)
#define PROC(cs, out, in, n) hc128_process_packet(&cs, out, in, n)
#include "stream.inc"
