// Direct monitoring of the x86-64 leaf routines against their documented contracts: value oracle (GMP), guard
// pages on both sides of every operand, callee-saved registers, garbage in undefined register halves.
#include "common.hpp"
#include <sys/mman.h>

using std::string;
extern "C" {
#define W __attribute__((weak))
	uint32_t asm_Uint256_add(uint32_t *, const uint32_t *, uint32_t) W;
	uint32_t asm_Uint256_subtract(uint32_t *, const uint32_t *, uint32_t) W;
	uint32_t asm_Uint256_shiftLeft1(uint32_t *) W;
	void asm_Uint256_shiftRight1(uint32_t *, uint32_t) W;
	void asm_Uint256_replace(uint32_t *, const uint32_t *, uint32_t) W;
	void asm_Uint256_swap(uint32_t *, uint32_t *, uint32_t) W;
	bool asm_Uint256_equalTo(const uint32_t *, const uint32_t *) W;
	bool asm_Uint256_lessThan(const uint32_t *, const uint32_t *) W;
	void asm_FieldInt_multiply256x256eq512(uint32_t *, const uint32_t *, const uint32_t *) W;
	void asm_FieldInt_multiplyBarrettStep0(uint32_t *, const uint32_t *) W;
	void asm_FieldInt_multiplyBarrettStep1(uint32_t *, const uint32_t *) W;
	void asm_FieldInt_multiplyBarrettStep2(uint32_t *, const uint32_t *, const uint32_t *) W;
	struct VpCall { void *fn; uint64_t a, b, d, in[6], out[6], rsp0, rsp1, flags, junk; };
	uint64_t vp_tramp(VpCall *);
}

// An operand flush against an inaccessible page, either at its end or at its start.
struct Guarded {
	static const size_t PG = 4096;
	uint8_t *base;
	Guarded() {
		base = static_cast<uint8_t *>(mmap(nullptr, 3 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (base == MAP_FAILED || mprotect(base + PG, PG, PROT_READ | PROT_WRITE) != 0) { fprintf(stderr, "HARNESS: mmap\n"); std::_Exit(70); }
	}
	uint32_t *at(Rng &r, size_t words) {
		size_t n = words * 4;
		std::memset(base + PG, 0xD7, PG);
		off = r.chance(1, 3) ? 0 : r.chance(1, 2) ? PG - n : 4 * r.below((PG - n) / 4 + 1);
		len = n;
		return reinterpret_cast<uint32_t *>(base + PG + off);
	}
	bool surroundIntact() const {
		for (size_t i = 0; i < PG; i++) if ((i < off || i >= off + len) && base[PG + i] != 0xD7) return false;
		return true;
	}
	size_t off = 0, len = 0;
};
static mpz_class genWide(Rng &r, int words256) {
	mpz_class v = 0;
	bool extreme = r.chance(1, 8);
	for (int i = 0; i < words256; i++) v = (v << 256) | (extreme ? (r.chance(1, 2) ? mpz_class(Curve::TWO256 - 1) : mpz_class(0)) : gen256(r));
	return v;
}
static mpz_class low(const mpz_class &v, int bits) { return modZ(v, mpz_class(1) << bits); }

static void asmCase(Ctx &c) {
	Rng &r = c.rng;
	static Guarded g0, g1, g2;
	mpz_class a = gen256(r), b = genRelated(r, a);
	if (r.chance(1, 2)) std::swap(a, b);
	uint32_t en = static_cast<uint32_t>(r.below(2));
	// Call through the trampoline; returns rax.
	auto invoke = [&](const char *name, void *fn, const void *p, const void *q, const void *s, bool sIsU32, bool qIsU32) -> uint64_t {
		VpCall v; std::memset(&v, 0, sizeof v);
		uint64_t junk = r.chance(1, 3) ? ~0ULL : r.next();
		v.fn = fn; v.a = reinterpret_cast<uint64_t>(p); v.b = reinterpret_cast<uint64_t>(q); v.d = reinterpret_cast<uint64_t>(s); v.junk = junk;
		if (sIsU32) v.d = (v.d & 0xFFFFFFFFULL) | (r.chance(1, 2) ? junk & 0xFFFFFFFF00000000ULL : 0);   // ABI: upper half undefined
		if (qIsU32) v.b = (v.b & 0xFFFFFFFFULL) | (r.chance(1, 2) ? junk & 0xFFFFFFFF00000000ULL : 0);
		for (auto &x : v.in) x = r.next();
		uint64_t ret = vp_tramp(&v);
		CHECK(c, std::memcmp(v.in, v.out, sizeof v.in) == 0, "%s clobbered a callee-saved register", name);
		CHECK(c, v.rsp0 == v.rsp1, "%s left the stack pointer moved by %ld", name, static_cast<long>(v.rsp1 - v.rsp0));
		CHECK(c, (v.flags & 0x400) == 0, "%s left the direction flag set", name);
		c.hit(name);
		return ret;
	};
	auto e64 = [&](uint32_t x) { return reinterpret_cast<const void *>(static_cast<uintptr_t>(x)); };
	auto want = [&](const char *name, const uint32_t *p, int words, const mpz_class &exp) {
		c.observe(p, words * 4);
		mpz_class got = fromWords(p, words);
		CHECK(c, got == exp, "%s: got %s, expected %s", name, hexZ(got, words * 8).c_str(), hexZ(exp, words * 8).c_str());
	};
	auto around = [&](const char *name) { CHECK(c, g0.surroundIntact() && g1.surroundIntact() && g2.surroundIntact(), "%s wrote outside its operands", name); };
	c.note("a=" + hexZ(a) + " b=" + hexZ(b) + strf(" enable=%u", en));
	c.nontrivial(hashBytes(c.describe.data(), c.describe.size()));
	uint32_t *x = g0.at(r, 8), *y = g1.at(r, 8);
	g2.at(r, 8);
	auto set = [&] { toWords(a, x); toWords(b, y); };
	auto fnp = [](auto f) { return reinterpret_cast<void *>(f); };
	mpz_class M = Curve::TWO256;
	if (asm_Uint256_add) {
		set(); uint64_t rr = invoke("add", fnp(asm_Uint256_add), x, y, e64(en), true, false);
		mpz_class s = a + (en ? b : mpz_class(0));
		want("add", x, 8, modZ(s, M)); want("add src", y, 8, b);
		CHECK(c, static_cast<uint32_t>(rr) == (s >= M ? 1u : 0u), "add returned 0x%x", static_cast<uint32_t>(rr)); around("add");
	}
	if (asm_Uint256_subtract) {
		set(); uint64_t rr = invoke("subtract", fnp(asm_Uint256_subtract), x, y, e64(en), true, false);
		mpz_class s = a - (en ? b : mpz_class(0));
		want("subtract", x, 8, modZ(s, M)); want("subtract src", y, 8, b);
		CHECK(c, static_cast<uint32_t>(rr) == (s < 0 ? 1u : 0u), "subtract returned 0x%x", static_cast<uint32_t>(rr)); around("subtract");
	}
	if (asm_Uint256_shiftLeft1) {
		set(); uint64_t rr = invoke("shiftLeft1", fnp(asm_Uint256_shiftLeft1), x, e64(static_cast<uint32_t>(r.next())), e64(static_cast<uint32_t>(r.next())), false, false);
		want("shiftLeft1", x, 8, modZ(a * 2, M));
		CHECK(c, static_cast<uint32_t>(rr) == (a * 2 >= M ? 1u : 0u), "shiftLeft1 returned 0x%x", static_cast<uint32_t>(rr)); around("shiftLeft1");
	}
	if (asm_Uint256_shiftRight1) {
		set(); invoke("shiftRight1", fnp(asm_Uint256_shiftRight1), x, e64(en), e64(0), false, true);
		want("shiftRight1", x, 8, en ? mpz_class(a / 2) : a); around("shiftRight1");
	}
	if (asm_Uint256_replace) {
		set(); invoke("replace", fnp(asm_Uint256_replace), x, y, e64(en), true, false);
		want("replace", x, 8, en ? b : a); want("replace src", y, 8, b); around("replace");
	}
	if (asm_Uint256_swap) {
		set(); invoke("swap", fnp(asm_Uint256_swap), x, y, e64(en), true, false);
		want("swap left", x, 8, en ? b : a); want("swap right", y, 8, en ? a : b); around("swap");
	}
	if (asm_Uint256_equalTo) {
		set(); uint64_t rr = invoke("equalTo", fnp(asm_Uint256_equalTo), x, y, e64(0), false, false);
		CHECK(c, (rr & 0xFF) == (a == b ? 1u : 0u), "equalTo returned 0x%x", static_cast<unsigned>(rr & 0xFF)); around("equalTo");
		want("equalTo left", x, 8, a); want("equalTo right", y, 8, b);
		if (a == b) c.hit("equalTo.true");
	}
	if (asm_Uint256_lessThan) {
		set(); uint64_t rr = invoke("lessThan", fnp(asm_Uint256_lessThan), x, y, e64(0), false, false);
		CHECK(c, (rr & 0xFF) == (a < b ? 1u : 0u), "lessThan returned 0x%x", static_cast<unsigned>(rr & 0xFF)); around("lessThan");
		if (a < b) c.hit("lessThan.true");
	}
	if (asm_FieldInt_multiply256x256eq512) {
		uint32_t *z = g2.at(r, 16); bool sq = r.chance(1, 4);
		set(); invoke("multiply512", fnp(asm_FieldInt_multiply256x256eq512), z, x, sq ? x : y, false, false);
		want("multiply512", z, 16, a * (sq ? a : b)); want("multiply512 x", x, 8, a); want("multiply512 y", y, 8, b); around("multiply512");
	}
	if (asm_FieldInt_multiplyBarrettStep0) {
		mpz_class s = r.chance(1, 2) ? mpz_class(modZ(a, Curve::P) * modZ(b, Curve::P)) : genWide(r, 2);
		c.note("barrett0 src=" + hexZ(s, 128));
		uint32_t *src = g0.at(r, 16), *dst = g2.at(r, 24);
		toWords(s, src, 16);
		invoke("barrettStep0", fnp(asm_FieldInt_multiplyBarrettStep0), dst, src, e64(0), false, false);
		want("barrettStep0", dst, 24, low(s * (M + (mpz_class(1) << 32) + 0x3D1), 768)); want("barrettStep0 src", src, 16, s); around("barrettStep0");
	}
	if (asm_FieldInt_multiplyBarrettStep1) {
		c.note("barrett1 src=" + hexZ(a));
		uint32_t *src = g0.at(r, 8), *dst = g2.at(r, 16);
		toWords(a, src, 8);
		invoke("barrettStep1", fnp(asm_FieldInt_multiplyBarrettStep1), dst, src, e64(0), false, false);
		want("barrettStep1", dst, 16, a * Curve::P); want("barrettStep1 src", src, 8, a); around("barrettStep1");
	}
	if (asm_FieldInt_multiplyBarrettStep2) {
		mpz_class p = genWide(r, 2), q = r.chance(1, 2) ? genWide(r, 2) : modZ(p + gen256(r) - gen256(r), mpz_class(1) << 512);
		c.note("barrett2 x=" + hexZ(p, 128) + " y=" + hexZ(q, 128));
		uint32_t *px = g0.at(r, 16), *py = g1.at(r, 16), *dst = g2.at(r, 9);
		toWords(p, px, 16); toWords(q, py, 16);
		invoke("barrettStep2", fnp(asm_FieldInt_multiplyBarrettStep2), dst, px, py, false, false);
		want("barrettStep2", dst, 9, low(p - q, 288)); want("barrettStep2 x", px, 16, p); want("barrettStep2 y", py, 16, q); around("barrettStep2");
	}
}
static RegisterSuite sAsm("asm", asmCase);
