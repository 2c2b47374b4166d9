// Small stand-ins for std::string and the standard streams, so that the example can be executed symbolically.
// The guards of the library's own headers are defined first, which makes them empty.
#define _GLIBCXX_IOSTREAM 1
#define _GLIBCXX_FSTREAM 1
#define _GLIBCXX_STRING 1
#define _GLIBCXX_SSTREAM 1
#define _GLIBCXX_IOMANIP 1
#define _GLIBCXX_OSTREAM 1
#define _GLIBCXX_ISTREAM 1
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <cstdint>
#include <cstdlib>
#include <cstring>
typedef uint64_t u64;
extern uint8_t *vh_lits, *vh_log;
extern u64 vh_nlit, vh_nlog;
static const u64 VH_LOG = 8192, VH_STR = 1024;
namespace std { inline namespace vh {
struct string {
	typedef size_t size_type;
	typedef char *iterator;
	typedef const char *const_iterator;
	static const size_t npos = (size_t)-1;
	char b[VH_STR];
	size_t n;
	void set(const char *s, size_t l) { n = l < VH_STR ? l : VH_STR - 1; for (size_t i = 0; i < n; i++) b[i] = s[i]; b[n] = 0; }
	string() { n = 0; b[0] = 0; }
	// text given by a literal: any other text of the same length may stand in its place
	string(const char *s) { set(s, ::strlen(s)); for (size_t i = 0; i < n; i++) b[i] = (char)vh_lits[vh_nlit++]; }
	string(const char *s, size_t l) { set(s, l); }
	string(const char *f, const char *l) { set(f, l - f); }
	string(size_t l, char c) { n = l < VH_STR ? l : VH_STR - 1; for (size_t i = 0; i < n; i++) b[i] = c; b[n] = 0; }
	string(const string &o) { set(o.b, o.n); }
	string &operator=(const string &o) { if (this != &o) set(o.b, o.n); return *this; }
	string &operator=(const char *s) { string t(s); set(t.b, t.n); return *this; }
	size_t size() const { return n; }
	size_t length() const { return n; }
	bool empty() const { return n == 0; }
	const char *c_str() const { return b; }
	const char *data() const { return b; }
	char *data() { return b; }
	char &operator[](size_t i) { return b[i]; }
	const char &operator[](size_t i) const { return b[i]; }
	char &at(size_t i) { return b[i]; }
	char *begin() { return b; }
	char *end() { return b + n; }
	const char *begin() const { return b; }
	const char *end() const { return b + n; }
	void clear() { n = 0; b[0] = 0; }
	void reserve(size_t) {}
	void push_back(char c) { if (n + 1 < VH_STR) { b[n++] = c; b[n] = 0; } }
	void resize(size_t l, char c = 0) { while (n < l && n + 1 < VH_STR) push_back(c); n = l; b[n] = 0; }
	string &append(const char *s, size_t l) { for (size_t i = 0; i < l; i++) push_back(s[i]); return *this; }
	string &append(const string &o) { return append(o.b, o.n); }
	string &assign(const char *s, size_t l) { set(s, l); return *this; }
	string &operator+=(const string &o) { return append(o.b, o.n); }
	string &operator+=(const char *s) { return append(s, ::strlen(s)); }
	string &operator+=(char c) { push_back(c); return *this; }
	string substr(size_t p, size_t l = npos) const { if (l > n - p) l = n - p; return string(b + p, l); }
	int compare(const string &o) const { return n == o.n ? ::memcmp(b, o.b, n) : n < o.n ? -1 : 1; }
};
inline string operator+(const string &a, const string &b) { string r(a); r += b; return r; }
inline string operator+(const string &a, const char *b) { string r(a); r += b; return r; }
inline bool operator==(const string &a, const string &b) { return a.n == b.n && !::memcmp(a.b, b.b, a.n); }
inline bool operator!=(const string &a, const string &b) { return !(a == b); }
struct ostream {
	ostream &write(const char *s, long l) { for (long i = 0; i < l; i++) if (vh_nlog < VH_LOG) vh_log[vh_nlog++] = (uint8_t)s[i]; return *this; }
	ostream &put(char c) { return write(&c, 1); }
	ostream &flush() { return *this; }
	ostream &operator<<(const char *s) { return write(s, ::strlen(s)); }
	ostream &operator<<(const unsigned char *s) { return *this << (const char *)s; }
	ostream &operator<<(char c) { return put(c); }
	ostream &operator<<(unsigned char c) { return put((char)c); }
	ostream &operator<<(const string &s) { return write(s.b, s.n); }
	ostream &dec(unsigned long v) { char t[24]; int k = 0; do { t[k++] = (char)('0' + v % 10); v /= 10; } while (v); while (k) put(t[--k]); return *this; }
	ostream &operator<<(unsigned long v) { return dec(v); }
	ostream &operator<<(unsigned v) { return dec(v); }
	ostream &operator<<(long v) { if (v < 0) { put('-'); return dec(-(unsigned long)v); } return dec(v); }
	ostream &operator<<(int v) { return *this << (long)v; }
	ostream &operator<<(bool v) { return dec(v); }
	ostream &operator<<(ostream &(*f)(ostream &)) { return f(*this); }
};
inline ostream &endl(ostream &o) { return o.put('\n'); }
inline ostream &flush(ostream &o) { return o; }
inline ostream &hex(ostream &o) { return o; }
inline ostream &dec(ostream &o) { return o; }
extern ostream cout, cerr;
}
}
