// Trace-equality monitor. The library is compiled with callbacks on every basic block, load, store and division;
// an operation is executed on many secrets (public parameters fixed) and the recorded event sequences
// (code location / exact memory address) must be identical.
#include "ct_ops.hpp"
#include <malloc.h>
#include <new>
#include <sys/mman.h>

static const size_t CAP = size_t(1) << 27;
static uint64_t *ref;            // events of the reference execution
static size_t refLen, pos;
static int mode;                 // 0 off, 1 recording, 2 comparing, 3 warming up
static size_t badAt; static uint64_t badWas, badIs; static bool bad;
static uint64_t kinds[4];

static inline void ev(uint64_t e, int kind) {
	if (mode == 0) return;
	kinds[kind]++;
	if (mode == 1) { if (pos < CAP) ref[pos] = e; }
	else if (mode == 2 && !bad && (pos >= refLen || ref[pos] != e)) { bad = true; badAt = pos; badWas = pos < refLen ? ref[pos] : 0; badIs = e; }
	pos++;
}
#define PC reinterpret_cast<uint64_t>(__builtin_return_address(0))
#define LD(n) void __sanitizer_cov_load##n(void *a) { ev(reinterpret_cast<uint64_t>(a) | uint64_t(1) << 60, 1); }
#define ST(n) void __sanitizer_cov_store##n(void *a) { ev(reinterpret_cast<uint64_t>(a) | uint64_t(2) << 60, 2); }
extern "C" {
	void __sanitizer_cov_trace_pc_guard_init(uint32_t *s, uint32_t *e) { for (; s < e; s++) *s = 1; }
	void __sanitizer_cov_trace_pc_guard(uint32_t *) { ev(PC, 0); }
	LD(1) LD(2) LD(4) LD(8) LD(16) ST(1) ST(2) ST(4) ST(8) ST(16)
	void __sanitizer_cov_trace_div4(uint32_t) { ev(PC | uint64_t(3) << 60, 3); }
	void __sanitizer_cov_trace_div8(uint64_t) { ev(PC | uint64_t(3) << 60, 3); }
	void __sanitizer_cov_trace_gep(uintptr_t i) { ev((i & 0xFFFFFFFFFFFFFFULL) | uint64_t(4) << 60, 1); }   // every computed array index
	// C library calls made by the library (linked with --wrap): what they touch, and how far a comparison gets.
	int __real_memcmp(const void *, const void *, size_t); int __real_bcmp(const void *, const void *, size_t);
	void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
	static void range(const void *a, const void *b, size_t n) { ev(reinterpret_cast<uint64_t>(a) | uint64_t(5) << 60, 1); ev(reinterpret_cast<uint64_t>(b) | uint64_t(5) << 60, 1); ev(n | uint64_t(6) << 60, 1); }
	static size_t prefix(const void *a, const void *b, size_t n) { const uint8_t *x = static_cast<const uint8_t *>(a), *y = static_cast<const uint8_t *>(b); size_t i = 0; while (i < n && x[i] == y[i]) i++; return i; }
	int __wrap_memcmp(const void *a, const void *b, size_t n) { if (mode) { range(a, b, n); ev(prefix(a, b, n) | uint64_t(7) << 60, 1); } return __real_memcmp(a, b, n); }
	int __wrap_bcmp(const void *a, const void *b, size_t n) { if (mode) { range(a, b, n); ev(prefix(a, b, n) | uint64_t(7) << 60, 1); } return __real_bcmp(a, b, n); }
	void *__wrap_memcpy(void *d, const void *s, size_t n) { if (mode) range(d, s, n); return __real_memcpy(d, s, n); }
	void *__wrap_memmove(void *d, const void *s, size_t n) { if (mode) range(d, s, n); return __real_memmove(d, s, n); }
	void *__wrap_memset(void *d, int v, size_t n) { if (mode) range(d, nullptr, n); return __real_memset(d, v, n); }
}

// Memory that the library allocates during an execution comes from an arena that starts anew each time, so that
// addresses are comparable; the amounts asked for are events.
alignas(64) static char arena[size_t(1) << 24]; static size_t arenaPos;
static bool inArena(const void *p) { return p >= arena && p < arena + sizeof arena; }
static void *arenaGet(size_t n) {
	ev(n | uint64_t(6) << 60, 1);
	if (n > sizeof arena - arenaPos) return nullptr;
	void *p = arena + arenaPos; arenaPos = (arenaPos + n + 63) & ~size_t(63);
	if (arenaPos > sizeof arena) arenaPos = sizeof arena;
	return p;
}
extern "C" {
	void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
	void *__wrap_malloc(size_t n) { void *p = mode == 1 || mode == 2 ? arenaGet(n) : nullptr; return p ? p : __real_malloc(n); }
	void __wrap_free(void *p) { if (!inArena(p)) __real_free(p); }
	void *__wrap_calloc(size_t n, size_t m) { void *p = mode == 1 || mode == 2 ? arenaGet(n * m) : nullptr; if (p) { __real_memset(p, 0, n * m); return p; } return __real_calloc(n, m); }
	void *__wrap_realloc(void *o, size_t n) {
		if (mode == 1 || mode == 2 || inArena(o)) {
			void *p = __wrap_malloc(n); size_t room = !o ? 0 : inArena(o) ? static_cast<size_t>(arena + sizeof arena - static_cast<char *>(o)) : malloc_usable_size(o);
			if (o && p) __real_memmove(p, o, n < room ? n : room);
			__wrap_free(o); return p;
		}
		return __real_realloc(o, n);
	}
}
void *operator new(size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }

__attribute__((noinline)) static void armed(int m, void (*f)()) { pos = 0; arenaPos = 0; bad = false; okResult = true; mode = m; f(); mode = 0; }

static string explain(Ctx &, uint64_t e) {
	static const char *k[] = {"block at ", "load from ", "store to ", "division at ", "array index ", "memory block at ", "memory block of length ", "comparison stopped at byte "};
	if (e == 0) return "end of trace";
	return strf("%s%#lx", k[e >> 60 & 7], e & ((uint64_t(1) << 60) - 1));
}
static void ctCase(Ctx &c) {
	if (!ref) {
		ref = static_cast<uint64_t *>(mmap(nullptr, CAP * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		if (ref == MAP_FAILED) { fprintf(stderr, "HARNESS: mmap\n"); std::_Exit(70); }
		initOps();
	}
	const auto &os = ops();
	const Op &op = os[c.idx % os.size()];
	uint64_t group = c.idx / os.size();
	int secrets = op.weight >= 6 ? (c.thorough ? 14 : 6) : op.weight >= 2 ? 24 : 60;
	static std::vector<bool> warm(os.size());
	if (!warm[c.idx % os.size()]) {   // one-time initialisation is not part of the guarantee
		for (int i = 0; i < 3; i++) { Rng pub(9, 9, 9), sec(9, 9, static_cast<uint64_t>(i)); op.setup(c, pub, sec, 9); armed(3, op.run); }
		warm[c.idx % os.size()] = true;
	}
	bool have = false;
	uint64_t before = kinds[0];
	for (int s = 0; s < secrets; s++) {
		Rng pub(c.seed, 4242, c.idx), sec(c.seed, 777 + s, c.idx);
		op.setup(c, pub, sec, group == 0 ? s : 10 + s);
		string what = describeOperands(op.name, s);
		c.note(what);
		armed(have ? 2 : 1, op.run);
		if (!okResult) { c.hit("unsuccessful-execution-skipped"); continue; }   // the guarantee covers successful executions
		c.eval();
		c.hit(string("exec.") + op.name);
		if (!have) { if (pos >= CAP) { fprintf(stderr, "HARNESS: trace too long\n"); std::_Exit(70); } refLen = pos; have = true; if (pos == 0) { fprintf(stderr, "HARNESS: no trace events for %s\n", op.name); std::_Exit(70); } continue; }
		c.nontrivial(hashBytes(what.data(), what.size()));
		if (bad || pos != refLen)
			c.fail(strf("%s: execution trace depends on the secret: event %zu of %zu was %s, now %s (lengths %zu, %zu)", op.name, bad ? badAt : refLen, refLen, explain(c, bad ? badWas : 0).c_str(), explain(c, bad ? badIs : 0).c_str(), refLen, pos));
	}
	c.hit("events.blocks", kinds[0] - before);
	if (have) c.hit(string("events-of-reference-executions.") + op.name, refLen);
}
static RegisterSuite sCt("ct", ctCase);
