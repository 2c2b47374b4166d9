// Native driver: runs harness entries on concrete buffers of exactly the requested sizes (replay and validation).
// stdin, one call per line:   <entry> <fill byte> <nargs> { v <value> | i <hex or -> | o <size> }
// stdout, one line per call:  <return value> <hex of every buffer argument>...
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <string>
#include <vector>
#include <alloca.h>
#include <fcntl.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define VMSAN 1
#endif
#endif
typedef uint64_t u64;
typedef u64 (*fn_t)(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64);
struct entry { const char *name; fn_t f; };
extern entry vh_table[];

static void __attribute__((noinline)) paint(int fill)
{
#ifndef VMSAN
	volatile char *p = (volatile char *)alloca(200000);
	for (int i = 0; i < 200000; i++) p[i] = (char)fill;
#endif
}

int main()
{
	// what the code under test prints is not part of the answers
	FILE *out = fdopen(dup(1), "w");
	dup2(open("/dev/null", O_WRONLY), 1);
	std::string name;
	while (std::cin >> name) {
		int fill, n;
		std::cin >> fill >> n;
		std::vector<u64> a(12, 0);
		std::vector<std::pair<uint8_t *, size_t>> bufs;
		for (int i = 0; i < n; i++) {
			std::string k;
			std::cin >> k;
			if (k == "v") {
				std::cin >> a[i];
				continue;
			}
			size_t size;
			uint8_t *p;
			if (k == "i") {
				std::string h;
				std::cin >> h;
				if (h == "-") h = "";
				size = h.size() / 2;
				p = (uint8_t *)malloc(size);
				for (size_t j = 0; j < size; j++) {
					auto d = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
					p[j] = (uint8_t)(d(h[2 * j]) * 16 + d(h[2 * j + 1]));
				}
			} else {
				std::cin >> size;
				p = (uint8_t *)malloc(size);
#ifndef VMSAN
				memset(p, fill, size);
#endif
			}
			bufs.push_back({p, size});
			a[i] = (u64)p;
		}
		fn_t f = nullptr;
		for (entry *e = vh_table; e->name; e++)
			if (name == e->name) f = e->f;
		if (!f) { fprintf(out, "noentry\n"); return 3; }
		paint(fill);
		u64 r = f(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
#ifdef VMSAN
		for (auto &b : bufs) if (b.second) __msan_check_mem_is_initialized(b.first, b.second);
#endif
		fprintf(out, "%llu", (unsigned long long)r);
		for (auto &b : bufs) {
			fprintf(out, " ");
			if (!b.second) fprintf(out, "-");
			for (size_t j = 0; j < b.second; j++) fprintf(out, "%02x", b.first[j]);
			free(b.first);
		}
		fprintf(out, "\n");
		fflush(out);
	}
	return 0;
}
