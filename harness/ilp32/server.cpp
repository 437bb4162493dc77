// Answers the requests of the history monitor on a 32-bit machine: the library and this file are compiled with -m32 and
// linked without any C or C++ library (none is installed for 32 bits); what is needed of them is below. Also compiled for
// the big-endian machine that harness/be32/machine.cpp is, with the same requests, whose numbers are little-endian.
#include <cerrno>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
template class std::basic_string<char>;
typedef std::vector<std::uint8_t> Bytes;
std::string hexOf(const void *p, std::size_t n);
std::string strf(const char *fmt, ...);
#include "../cpp/history_ops.hpp"
static_assert(sizeof(void *) == 4 && sizeof(long) == 4 && sizeof(std::size_t) == 4, "not a 32-bit machine");

/*---- The kernel ----*/
#ifdef __mips__
static long sys(long n, long a = 0, long b = 0, long c = 0) { register long r2 __asm__("$2") = n, r4 __asm__("$4") = a, r5 __asm__("$5") = b, r6 __asm__("$6") = c; __asm__ volatile("syscall" : "+r"(r2) : "r"(r4), "r"(r5), "r"(r6) : "memory"); return r2; }
#else
static long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0) { long r; __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c), "S"(d), "D"(e) : "memory"); return r; }
#endif
[[noreturn]] static void quit(int code) { for (;;) sys(252, code); }
extern "C" [[noreturn]] void rt_missing() { quit(77); }   // the library uses something of the C or C++ library that is not here
static void say(const char *s) { const char *e = s; while (*e) e++; sys(4, 2, reinterpret_cast<long>(s), e - s); }
[[noreturn]] static void die(const char *s) { say(s); say("\n"); quit(134); }
#ifdef __mips__
static void *pages(std::size_t n) { return reinterpret_cast<void *>(sys(90, static_cast<long>(n))); }
#else
struct MapArgs { unsigned long addr, len, prot, flags, fd, off; };
static void *pages(std::size_t n) { MapArgs m = {0, (n + 4095) & ~std::size_t(4095), 3, 0x22, ~0UL, 0}; long r = sys(90, reinterpret_cast<long>(&m)); return r < 0 && r > -4096 ? nullptr : reinterpret_cast<void *>(r); }
#endif

/*---- Memory: a heap of blocks by power of two, whose bytes are set before a block is handed out ----*/
static char *heap; static std::size_t heapUsed; static const std::size_t HEAP = 48u << 20;
struct Block { Block *next; std::uint32_t order, pad[2]; };   // before each block
static Block *freed[32];
static void *take(std::size_t n) {
	if (!heap && !(heap = static_cast<char *>(pages(HEAP)))) die("no memory");
	unsigned order = 4; while (order < 26 && (std::size_t(1) << order) < n) order++;
	Block *b = freed[order];
	if (b) freed[order] = b->next;
	else {
		std::size_t whole = sizeof(Block) + (std::size_t(1) << order);
		if (n > HEAP || whole > HEAP - heapUsed) die("heap exhausted");
		b = reinterpret_cast<Block *>(heap + heapUsed); b->order = order; heapUsed += whole;
	}
	char *m = reinterpret_cast<char *>(b + 1);
	for (std::size_t i = 0; i < n; i++) m[i] = static_cast<char>(0xBE);
	return m;
}
static void give(void *p) { if (!p || static_cast<char *>(p) < heap || static_cast<char *>(p) >= heap + heapUsed) return; Block *b = static_cast<Block *>(p) - 1; if (b->order == 31) b = b->next; b->next = freed[b->order]; freed[b->order] = b; }
static void *takeAligned(std::size_t n, std::size_t al) {   // a header with the number 31 leads to the actual one
	if (al <= 16) return take(n);
	Block *b = static_cast<Block *>(take(n + al + sizeof(Block))) - 1;
	Block *p = reinterpret_cast<Block *>((reinterpret_cast<std::size_t>(b + 2) + al - 1) / al * al);
	(p - 1)->order = 31; (p - 1)->next = b;
	return p;
}
extern "C" {
	void *malloc(std::size_t n) { return take(n); }
	void *calloc(std::size_t a, std::size_t b) { void *p = take(a * b); std::memset(p, 0, a * b); return p; }
	void free(void *p) noexcept { give(p); }
	void *realloc(void *o, std::size_t n) { void *p = take(n); if (o) { std::size_t m = std::size_t(1) << (static_cast<Block *>(o) - 1)->order; std::memcpy(p, o, m < n ? m : n); give(o); } return p; }
	int posix_memalign(void **p, std::size_t al, std::size_t n) noexcept { *p = takeAligned(n, al); return 0; }
	void abort() noexcept { die("abort"); }
	void exit(int c) noexcept { quit(c); }
	void __assert_fail(const char *e, const char *f, unsigned, const char *) noexcept { say(f); say(": "); say(e); die(": assertion failed"); }
	void *memcpy(void *d, const void *s, std::size_t n) noexcept { char *a = static_cast<char *>(d); const char *b = static_cast<const char *>(s); for (std::size_t i = 0; i < n; i++) { a[i] = b[i]; __asm__ volatile(""); } return d; }
	void *memmove(void *d, const void *s, std::size_t n) noexcept { char *a = static_cast<char *>(d); const char *b = static_cast<const char *>(s); if (a <= b) for (std::size_t i = 0; i < n; i++) { a[i] = b[i]; __asm__ volatile(""); } else for (std::size_t i = n; i-- > 0;) { a[i] = b[i]; __asm__ volatile(""); } return d; }
	void *memset(void *d, int v, std::size_t n) noexcept { char *a = static_cast<char *>(d); for (std::size_t i = 0; i < n; i++) { a[i] = static_cast<char>(v); __asm__ volatile(""); } return d; }
	int memcmp(const void *x, const void *y, std::size_t n) noexcept { const unsigned char *a = static_cast<const unsigned char *>(x), *b = static_cast<const unsigned char *>(y); for (std::size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
	void *rt_memchr(const void *x, int v, std::size_t n) __asm__("memchr");
	void *rt_memchr(const void *x, int v, std::size_t n) { const unsigned char *a = static_cast<const unsigned char *>(x); for (std::size_t i = 0; i < n; i++) if (a[i] == static_cast<unsigned char>(v)) return const_cast<unsigned char *>(a + i); return nullptr; }
	std::size_t strlen(const char *s) noexcept { std::size_t n = 0; while (s[n]) { n++; __asm__ volatile(""); } return n; }
	char *rt_strchr(const char *s, int c) __asm__("strchr");
	char *rt_strchr(const char *s, int c) { for (;; s++) { if (*s == static_cast<char>(c)) return const_cast<char *>(s); if (!*s) return nullptr; } }
	char *rt_strrchr(const char *s, int c) __asm__("strrchr");
	char *rt_strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == static_cast<char>(c)) r = s; if (!*s) return const_cast<char *>(r); } }
	int strcmp(const char *a, const char *b) noexcept { for (;; a++, b++) { if (*a != *b) return static_cast<unsigned char>(*a) < static_cast<unsigned char>(*b) ? -1 : 1; if (!*a) return 0; } }
	int strncmp(const char *a, const char *b, std::size_t n) noexcept { for (; n; a++, b++, n--) { if (*a != *b) return static_cast<unsigned char>(*a) < static_cast<unsigned char>(*b) ? -1 : 1; if (!*a) return 0; } return 0; }
	char *strcpy(char *d, const char *s) noexcept { std::size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
	std::size_t strnlen(const char *s, std::size_t m) noexcept { std::size_t n = 0; while (n < m && s[n]) n++; return n; }
	int __cxa_atexit(void (*)(void *), void *, void *) noexcept { return 0; }
	int __cxa_thread_atexit(void (*)(void *), void *, void *) noexcept { return 0; }
	int atexit(void (*)()) noexcept { return 0; }
	[[noreturn]] void __cxa_pure_virtual() { die("pure virtual call"); }
	int __cxa_guard_acquire(char *g) { return *g == 0; }
	void __cxa_guard_release(char *g) { *g = 1; }
	void *__dso_handle = nullptr;
	// 64-bit division, which the compiler leaves to a library
	static std::uint64_t divide(std::uint64_t a, std::uint64_t b, std::uint64_t &r) { std::uint64_t q = 0; r = 0; if (b == 0) die("division by zero"); for (int i = 63; i >= 0; i--) { bool top = r >> 63; r = r << 1 | (a >> i & 1); if (top || r >= b) { r -= b; q |= std::uint64_t(1) << i; } } return q; }
	std::uint64_t __udivdi3(std::uint64_t a, std::uint64_t b) { std::uint64_t r; return divide(a, b, r); }
	std::uint64_t __umoddi3(std::uint64_t a, std::uint64_t b) { std::uint64_t r; divide(a, b, r); return r; }
	std::uint64_t __udivmoddi4(std::uint64_t a, std::uint64_t b, std::uint64_t *m) { std::uint64_t r, q = divide(a, b, r); if (m) *m = r; return q; }
	static std::uint64_t mag(std::int64_t a) { return a < 0 ? 0 - static_cast<std::uint64_t>(a) : static_cast<std::uint64_t>(a); }
	std::int64_t __divdi3(std::int64_t a, std::int64_t b) { std::uint64_t r, q = divide(mag(a), mag(b), r); return static_cast<std::int64_t>((a < 0) != (b < 0) ? 0 - q : q); }
	std::int64_t __moddi3(std::int64_t a, std::int64_t b) { std::uint64_t r; divide(mag(a), mag(b), r); return static_cast<std::int64_t>(a < 0 ? 0 - r : r); }
	int __popcountsi2(unsigned a) { int n = 0; for (; a; a &= a - 1) n++; return n; }
	int __popcountdi2(std::uint64_t a) { int n = 0; for (; a; a &= a - 1) n++; return n; }
	int __clzdi2(std::uint64_t a) { int n = 0; for (int i = 63; i >= 0 && !(a >> i & 1); i--) n++; return n; }
	int __ctzdi2(std::uint64_t a) { int n = 0; for (int i = 0; i < 64 && !(a >> i & 1); i++) n++; return n; }
}
void *operator new(std::size_t n) { return take(n); }
void *operator new[](std::size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, std::size_t) noexcept { give(p); }
void operator delete[](void *p, std::size_t) noexcept { give(p); }
namespace std {
	void __throw_length_error(const char *s) { die(s); }
	void __throw_logic_error(const char *s) { die(s); }
	void __throw_invalid_argument(const char *s) { die(s); }
	void __throw_out_of_range(const char *s) { die(s); }
	void __throw_out_of_range_fmt(const char *s, ...) { die(s); }
	void __throw_bad_alloc() { die("bad_alloc"); }
	void __throw_bad_array_new_length() { die("bad_array_new_length"); }
	void __throw_bad_function_call() { die("bad_function_call"); }
}

/*---- What the operations need ----*/
std::string hexOf(const void *p, std::size_t n) { static const char d[] = "0123456789abcdef"; std::string s; for (std::size_t i = 0; i < n; i++) { unsigned v = static_cast<const std::uint8_t *>(p)[i]; s += d[v >> 4]; s += d[v & 15]; } return s; }
std::string strf(const char *f, ...) {
	std::string s; va_list ap; va_start(ap, f);
	for (; *f; f++) {
		if (*f != '%') { s += *f; continue; }
		f++;
		unsigned v = va_arg(ap, unsigned);
		if (*f == 'd' && static_cast<int>(v) < 0) { s += '-'; v = 0 - v; } else if (*f != 'd' && *f != 'u') die("strf");
		char b[12]; int n = 0; do b[n++] = static_cast<char>('0' + v % 10); while (v /= 10);
		while (n) s += b[--n];
	}
	va_end(ap); return s;
}

/*---- Long messages: the digest of `total` bytes, appended in pieces or in one array ----*/
__attribute__((noinline)) static std::string longHash(const std::uint8_t *q, std::size_t n) {
	if (n != 14) die("bad request");
	std::uint64_t total = 0; for (int i = 0; i < 8; i++) total |= static_cast<std::uint64_t>(q[1 + i]) << 8 * i;
	unsigned piece = q[9] | q[10] << 8 | q[11] << 16 | static_cast<unsigned>(q[12]) << 24; std::uint8_t fill = q[13], out[64];
	if (q[0] == 0 || q[0] == 1) {
		std::uint8_t *m = static_cast<std::uint8_t *>(pages(piece)); if (!m) die("no memory");
		for (unsigned i = 0; i < piece; i++) m[i] = static_cast<std::uint8_t>(fill + i * 7 + (i >> 8));
		std::string r;
		if (q[0] == 0) { Sha256 h; for (std::uint64_t d = 0; d < total;) { std::size_t k = total - d < piece ? static_cast<std::size_t>(total - d) : piece; h.append(m, k); d += k; } r = hexOf(h.getHash().value, 32); }
		else { Sha512 h; for (std::uint64_t d = 0; d < total;) { std::size_t k = total - d < piece ? static_cast<std::size_t>(total - d) : piece; h.append(m, k); d += k; } h.getHash(out); r = hexOf(out, 64); }
		sys(91, reinterpret_cast<long>(m), static_cast<long>(piece)); return r;
	}
	std::size_t t = static_cast<std::size_t>(total);
	std::uint8_t *m = static_cast<std::uint8_t *>(pages(t + 1)); if (!m) die("no memory");
	for (std::size_t i = 0; i < t; i += 4096) m[i] = static_cast<std::uint8_t>(fill + (i >> 12) * 7);
	std::string r;
	if (q[0] == 2) { Ripemd160::getHash(m, t, out); r = hexOf(out, 20); } else if (q[0] == 3) { Keccak256::getHash(m, t, out); r = hexOf(out, 32); }
	else if (q[0] == 4) { r = hexOf(Sha256::getHash(m, t).value, 32); } else { Sha512::getHash(m, t, out); r = hexOf(out, 64); }
	sys(91, reinterpret_cast<long>(m), static_cast<long>(t + 1)); return r;
}

/*---- Requests ----*/
static bool readAll(void *p, std::size_t n) { char *c = static_cast<char *>(p); while (n) { long k = sys(3, 0, reinterpret_cast<long>(c), static_cast<long>(n)); if (k == -EINTR) continue; if (k <= 0) return false; c += k; n -= static_cast<std::size_t>(k); } return true; }
static bool writeAll(const void *p, std::size_t n) { const char *c = static_cast<const char *>(p); while (n) { long k = sys(4, 1, reinterpret_cast<long>(c), static_cast<long>(n)); if (k == -EINTR) continue; if (k <= 0) return false; c += k; n -= static_cast<std::size_t>(k); } return true; }
static std::uint32_t number(const std::uint8_t *p) { return p[0] | static_cast<std::uint32_t>(p[1]) << 8 | static_cast<std::uint32_t>(p[2]) << 16 | static_cast<std::uint32_t>(p[3]) << 24; }
static void serveAll() {
	for (;;) {
		std::uint8_t b[4]; if (!readAll(b, 4)) return;
		std::uint32_t n = number(b);
		std::uint8_t *q = static_cast<std::uint8_t *>(take(n)); if (!readAll(q, n)) return;
		std::string o;
		if (q[0] == 255) o = longHash(q + 1, n - 1);
		else {
			Args a;
			for (std::size_t i = 1; i < n;) { std::uint32_t l = number(q + i); i += 4; a.push_back(Bytes(q + i, q + i + l)); i += l; }
			Slots s(false); o = OPS[q[0]].run(a, s);
		}
		std::uint32_t l = static_cast<std::uint32_t>(o.size());
		for (int i = 0; i < 4; i++) b[i] = static_cast<std::uint8_t>(l >> 8 * i);
		if (!writeAll(b, 4) || !writeAll(o.data(), l)) return;
		give(q);
	}
}

/*---- Start: thread-local storage, constructors ----*/
#ifndef __mips__
struct Ehdr { unsigned char ident[16]; std::uint16_t type, machine; std::uint32_t version, entry, phoff, shoff, flags; std::uint16_t ehsize, phentsize, phnum; };
struct Phdr { std::uint32_t type, offset, vaddr, paddr, filesz, memsz, flags, align; };
struct UserDesc { unsigned entry, base, limit, bits; };
extern "C" const char __ehdr_start[];
#endif
extern "C" void (*__init_array_start[])(int, char **, char **); extern "C" void (*__init_array_end[])(int, char **, char **);
extern "C" __attribute__((used, noinline)) void start() {
#ifndef __mips__
	const Ehdr *e = reinterpret_cast<const Ehdr *>(__ehdr_start);
	for (int i = 0; i < e->phnum; i++) {
		const Phdr *p = reinterpret_cast<const Phdr *>(__ehdr_start + e->phoff) + i;
		if (p->type != 7) continue;   // PT_TLS
		std::size_t al = p->align < 16 ? 16 : p->align, size = (p->memsz + al - 1) / al * al;
		char *b = static_cast<char *>(pages(size + 4096 + al)); b = reinterpret_cast<char *>((reinterpret_cast<std::size_t>(b) + al - 1) / al * al);
		std::memcpy(b + size - ((p->memsz + p->align - 1) / (p->align ? p->align : 1) * (p->align ? p->align : 1)), reinterpret_cast<const char *>(p->vaddr), p->filesz);
		char *tp = b + size; *reinterpret_cast<char **>(tp) = tp;
		UserDesc d = {~0U, reinterpret_cast<unsigned>(tp), 0xFFFFF, 0x51};   // 32-bit, limit in pages, usable
		if (sys(243, reinterpret_cast<long>(&d)) < 0) die("set_thread_area");
		__asm__ volatile("movw %w0, %%gs" : : "r"(d.entry * 8 + 3));
	}
#endif
	for (void (**f)(int, char **, char **) = __init_array_start; f != __init_array_end; f++) (*f)(0, nullptr, nullptr);
	serveAll();
	quit(0);
}
#ifndef __mips__
extern "C" __attribute__((naked)) void _start() { __asm__ volatile("xorl %ebp, %ebp\n\tandl $-16, %esp\n\tcall start\n\thlt"); }
#endif
