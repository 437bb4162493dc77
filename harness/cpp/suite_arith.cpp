#include "common.hpp"
#include "Uint256.hpp"
#include "FieldInt.hpp"
#include "Utils.hpp"
#include "lib.hpp"

using std::string;

static const mpz_class &M = Curve::TWO256;

/*---- Unsigned 256-bit arithmetic ----*/
static void checkU(Ctx &c, const char *op, const Uint256 &got, const mpz_class &want) {
	c.observe(got.value, 32);
	CHECK(c, fromWords(got.value) == want, "%s: got %s, expected %s", op, hexZ(fromWords(got.value)).c_str(), hexZ(want).c_str());
}
static void checkRet(Ctx &c, const char *op, uint32_t got, uint32_t want) {
	c.observe(&got, 4);
	CHECK(c, got == want, "%s: returned 0x%x, expected %u", op, got, want);
}

static void uintCase(Ctx &c) {
	Rng &r = c.rng;
	mpz_class a = gen256(r), b = genRelated(r, a);
	if (r.chance(1, 2)) std::swap(a, b);
	c.note("a=" + hexZ(a) + " b=" + hexZ(b));
	c.nontrivial(hashBytes(c.describe.data(), c.describe.size()));
	Placed<Uint256> x(r, U(a)), y(r, U(b));
	auto reset = [&] { *x = U(a); };
	auto ySame = [&](const char *op) { CHECK(c, fromWords(y->value) == b, "%s modified its other operand to %s", op, hexZ(fromWords(y->value)).c_str()); };
	for (uint32_t en = 0; en < 2; en++) {
		reset();
		uint32_t ret = x->add(*y, en);
		mpz_class sum = a + (en ? b : mpz_class(0));
		checkU(c, en ? "add" : "add(disabled)", *x, modZ(sum, M)); checkRet(c, "add carry", ret, sum >= M);
		c.hit(sum >= M ? "add.carry=1" : "add.carry=0");
		ySame("add");
		reset();
		ret = x->subtract(*y, en);
		mpz_class diff = a - (en ? b : mpz_class(0));
		checkU(c, en ? "subtract" : "subtract(disabled)", *x, modZ(diff, M)); checkRet(c, "subtract borrow", ret, diff < 0);
		c.hit(diff < 0 ? "sub.borrow=1" : "sub.borrow=0");
		ySame("subtract");
		reset();
		x->shiftRight1(en);
		checkU(c, en ? "shiftRight1" : "shiftRight1(disabled)", *x, en ? mpz_class(a / 2) : a);
		reset();
		x->replace(*y, en);
		checkU(c, en ? "replace" : "replace(disabled)", *x, en ? b : a); ySame("replace");
		reset();
		x->swap(*y, en);
		checkU(c, "swap left", *x, en ? b : a); checkU(c, "swap right", *y, en ? a : b);
		*y = U(b);
		reset();
		x->replace(*x, en); checkU(c, "replace with itself", *x, a);
		x->swap(*x, en); checkU(c, "swap with itself", *x, a);
	}
	reset();
	CHECK(c, x->add(*y) == (a + b >= M ? 1U : 0U) && fromWords(x->value) == modZ(a + b, M), "add with default enable");
	reset();
	CHECK(c, x->subtract(*y) == (a < b ? 1U : 0U) && fromWords(x->value) == modZ(a - b, M), "subtract with default enable");
	reset();
	uint32_t top = x->shiftLeft1();
	checkU(c, "shiftLeft1", *x, modZ(2 * a, M)); checkRet(c, "shiftLeft1 bit", top, a >= M / 2);
	c.hit(top ? "shl.out=1" : "shl.out=0");
	reset();
	x->shiftRight1(); checkU(c, "shiftRight1 default", *x, a / 2);
	reset();
	const Uint256 &cx = *x, &cy = *y;
	int cmp = ::cmp(a, b);
	c.hit(cmp < 0 ? "cmp.less" : cmp == 0 ? "cmp.equal" : "cmp.greater");
	struct { const char *n; bool got, want; } rel[] = {
		{"==", cx == cy, cmp == 0}, {"!=", cx != cy, cmp != 0}, {"<", cx < cy, cmp < 0}, {"<=", cx <= cy, cmp <= 0}, {">", cx > cy, cmp > 0}, {">=", cx >= cy, cmp >= 0},
		{"self ==", cx == cx, true}, {"self <", cx < cx, false}, {"self >=", cx >= cx, true}, {"self !=", cx != cx, false}, {"rev <", cy < cx, cmp > 0}, {"rev ==", cy == cx, cmp == 0},
	};
	for (auto &q : rel) { c.observe(&q.got, 1); CHECK(c, q.got == q.want, "operator %s returned %d, expected %d", q.n, q.got, q.want); }
	checkU(c, "comparison left operand", *x, a); ySame("comparison");
	// Conversions
	Bytes be = toBE(a, 32);
	{
		Exact in(r, be), outb(r, 32);
		Placed<Uint256> z(r, static_cast<const uint8_t *>(in.p));
		checkU(c, "constructor from bytes", *z, a);
		z->getBigEndianBytes(outb.p);
		CHECK(c, std::memcmp(outb.p, be.data(), 32) == 0, "getBigEndianBytes gave %s", hexOf(outb.p, 32).c_str());
		checkU(c, "getBigEndianBytes operand", *z, a);
	}
	string hex = hexZ(a);
	unsigned mode = r.below(3);
	for (auto &ch : hex) if (mode == 1 || (mode == 2 && r.chance(1, 2))) ch = static_cast<char>(toupper(ch));
	Exact hs(r, Bytes(hex.c_str(), hex.c_str() + 65));
	checkU(c, "constructor from hex", Uint256(reinterpret_cast<const char *>(hs.p)), a);
	Placed<Uint256> cp(r, *x);
	checkU(c, "copy", *cp, a);
	if (c.idx % 64 == 0) { checkU(c, "ZERO constant", Uint256::ZERO, 0); checkU(c, "ONE constant", Uint256::ONE, 1); checkU(c, "default constructor", Uint256(), 0); }
}
static RegisterSuite s1("uint", uintCase);


/*---- Modular reciprocal, any odd modulus ----*/
static mpz_class genModulus(Rng &r) {
	for (;;) {
		mpz_class m;
		switch (r.below(10)) {
			case 0: m = Curve::P; break;
			case 1: m = Curve::N; break;
			case 2: m = M - 1 - 2 * r.below(50); break;
			case 3: m = 3 + 2 * r.below(40); break;
			case 4: m = (mpz_class(1) << (1 + r.below(256))) - 1; break;
			case 5: m = (mpz_class(1) << (1 + r.below(255))) + 1; break;
			default: m = gen256(r) | 1; break;
		}
		if (m > 1 && m < M && mpz_odd_p(m.get_mpz_t())) return m;
	}
}
static void recipCase(Ctx &c) {
	Rng &r = c.rng;
	mpz_class m = genModulus(r), a;
	if (c.idx == 0) m = M - 1;
	for (int tries = 0; ; tries++) {
		switch (r.below(8)) {
			case 0: a = 0; break;
			case 1: a = m - 1; break;
			case 2: a = modZ(m / 2 + r.below(3), m); break;
			case 3: a = modZ(mpz_class(1 + 2 * r.below(r.chance(1, 3) ? 1 : 256)) << (r.chance(1, 2) ? r.below(256) : 240 + r.below(16)), m); break;
			case 4: a = invZ(genBelow(r, m), m); break;   // inverses of structured values; 0 if there is none
			default: a = genBelow(r, m);
		}
		if (tries > 20) a = 1;
		mpz_class g; mpz_gcd(g.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t());
		if (a == 0 || g == 1) break;
	}
	if (c.idx == 1) { m = M - 1; a = 2; }
	if (c.idx == 2) { m = M - 1; a = M - 2; }
	c.note("x=" + hexZ(a) + " modulus=" + hexZ(m));
	{   // how hard the pair is for a binary GCD (a measurement, not part of the oracle)
		mpz_class x = m, y = a;
		unsigned n = 0;
		if (a != 0) while (x != 1) {
			n++;
			if (mpz_even_p(y.get_mpz_t())) y >>= 1;
			if (mpz_odd_p(y.get_mpz_t())) { if (x > y) std::swap(x, y); y -= x; }
		}
		c.hit(n < 400 ? "gcd-steps.<400" : n < 480 ? "gcd-steps.400-479" : n < 500 ? "gcd-steps.480-499" : n < 508 ? "gcd-steps.500-507" : "gcd-steps.508+");
	}
	c.nontrivial(hashBytes(c.describe.data(), c.describe.size()));
	Placed<Uint256> x(r, U(a)), mod(r, U(m));
	x->reciprocal(*mod);
	mpz_class got = fromWords(x->value);
	c.observe(x->value, 32);
	if (a == 0) { c.hit("x=0"); CHECK(c, got == 0, "reciprocal of 0 is %s", hexZ(got).c_str()); }
	else {
		c.hit(strf("modulus.bits.%03zu-%03zu", (mpz_sizeinbase(m.get_mpz_t(), 2) - 1) / 32 * 32 + 1, (mpz_sizeinbase(m.get_mpz_t(), 2) - 1) / 32 * 32 + 32));
		CHECK(c, got < m && modZ(got * a, m) == 1, "reciprocal gave %s, expected %s", hexZ(got).c_str(), hexZ(invZ(a, m)).c_str());
	}
	CHECK(c, fromWords(mod->value) == m, "modulus operand modified");
	if (a != 0) {   // an involution
		x->reciprocal(*mod);
		CHECK(c, fromWords(x->value) == a, "reciprocal of the reciprocal gave %s", hexZ(fromWords(x->value)).c_str());
	}
}
static RegisterSuite s2("recip", recipCase);


/*---- Prime field arithmetic ----*/
static const mpz_class &P = Curve::P;
static void checkF(Ctx &c, const char *op, const FieldInt &got, const mpz_class &want) {
	c.observe(got.value, 32);
	CHECK(c, fromWords(got.value) == want, "%s: got %s, expected %s", op, hexZ(fromWords(got.value)).c_str(), hexZ(want).c_str());
}
static void fieldCase(Ctx &c) {
	Rng &r = c.rng;
	mpz_class a = genBelow(r, P), b;
	switch (r.below(9)) {
		case 0: {  // products just above / below a multiple of the prime
			if (a == 0) a = 1;
			mpz_class t = r.below(2) ? mpz_class(static_cast<unsigned long>(r.u32())) : mpz_class(static_cast<unsigned long>(r.below(5000)));
			if (r.chance(1, 2)) t = P - 1 - t;
			b = modZ(t * invZ(a, P), P); c.hit("product.near-multiple-of-prime"); break;
		}
		case 1: a = P - 1 - r.below(3); b = P - 1 - r.below(3); c.hit("product.maximal"); break;
		case 2: { mpz_class d = static_cast<long>(r.below(3)); b = modZ(P - a + (r.chance(1, 2) ? d : mpz_class(-d)), P); c.hit("sum.near-prime"); break; }
		case 3: {  // reduced product lands in [2^256-p-small, ..] or word edges
			if (a == 0) a = 3;
			b = modZ(genBelow(r, P) * invZ(a, P), P); c.hit("product.chosen"); break;
		}
		case 4: b = a; c.hit("operands.equal"); break;
		default: b = modZ(genRelated(r, a), P);
	}
	c.note("a=" + hexZ(a) + " b=" + hexZ(b));
	c.nontrivial(hashBytes(c.describe.data(), c.describe.size()));
	Placed<FieldInt> x(r, F(a)), y(r, F(b));
	auto reset = [&] { *x = F(a); };
	auto ySame = [&](const char *op) { CHECK(c, fromWords(y->value) == b, "%s modified its other operand", op); };
	checkF(c, "constructor", *x, a);
	x->add(*y); checkF(c, "add", *x, modZ(a + b, P)); ySame("add"); c.hit(a + b >= M ? "add.carry" : a + b >= P ? "add.reduce" : "add.plain");
	reset(); x->subtract(*y); checkF(c, "subtract", *x, modZ(a - b, P)); ySame("subtract"); c.hit(a < b ? "sub.wrap" : "sub.plain");
	reset(); x->multiply2(); checkF(c, "multiply2", *x, modZ(2 * a, P));
	reset(); x->square(); checkF(c, "square", *x, modZ(a * a, P));
	reset(); x->multiply(*y); checkF(c, "multiply", *x, modZ(a * b, P)); ySame("multiply");
	reset(); x->multiply(*x); checkF(c, "multiply by itself", *x, modZ(a * a, P));
	reset(); { Placed<FieldInt> y2(r, *y); y2->multiply(*x); checkF(c, "multiply commuted", *y2, modZ(a * b, P)); }
	if (c.idx % 16 == 0) {
		reset(); x->reciprocal(); checkF(c, "reciprocal", *x, a == 0 ? mpz_class(0) : invZ(a, P)); c.hit("reciprocal");
	}
	for (uint32_t en = 0; en < 2; en++) { reset(); x->replace(*y, en); checkF(c, "replace", *x, en ? b : a); ySame("replace"); }
	reset();
	const FieldInt &cx = *x, &cy = *y;
	int cmp = ::cmp(a, b);
	struct { const char *n; bool got, want; } rel[] = {
		{"==", cx == cy, cmp == 0}, {"!=", cx != cy, cmp != 0}, {"<", cx < cy, cmp < 0}, {"<=", cx <= cy, cmp <= 0}, {">", cx > cy, cmp > 0}, {">=", cx >= cy, cmp >= 0}};
	for (auto &q : rel) CHECK(c, q.got == q.want, "operator %s returned %d, expected %d", q.n, q.got, q.want);
	Exact outb(r, 32);
	x->getBigEndianBytes(outb.p);
	CHECK(c, fromBE(outb.p, 32) == a, "getBigEndianBytes gave %s", hexOf(outb.p, 32).c_str());
	CHECK(c, fromWords(Uint256(*x).value) == a, "conversion to Uint256");
	string hex = hexZ(a);
	checkF(c, "constructor from hex", FieldInt(hex.c_str()), a);
	// Reduction of arbitrary 256-bit values
	mpz_class u = r.chance(1, 2) ? gen256(r) : modZ(P + (r.chance(1, 2) ? mpz_class(static_cast<long>(r.below(2000))) : modZ(gen256(r), M - P)), M);
	Placed<Uint256> uu(r, U(u));
	Placed<FieldInt> red(r, static_cast<const Uint256 &>(*uu));
	c.hit(u >= P ? "reduce.subtract" : "reduce.plain");
	CHECK(c, fromWords(red->value) == modZ(u, P), "FieldInt(%s) gave %s", hexZ(u).c_str(), hexZ(fromWords(red->value)).c_str());
	CHECK(c, fromWords(uu->value) == u, "conversion modified its operand");
	// A short random program over a few registers: results stay exact and canonical along histories
	if (c.idx % 4 == 0) {
		FieldInt reg[4] = {F(a), F(b), F(modZ(u, P)), F(genBelow(r, P))};
		mpz_class val[4] = {a, b, modZ(u, P), fromWords(reg[3].value)};
		for (int i = 0; i < 24; i++) {
			int d = r.below(4), s = r.below(4);
			if (d == s) s = (s + 1) % 4;
			switch (r.below(6)) {
				case 0: reg[d].add(reg[s]); val[d] = modZ(val[d] + val[s], P); break;
				case 1: reg[d].subtract(reg[s]); val[d] = modZ(val[d] - val[s], P); break;
				case 2: reg[d].multiply(reg[s]); val[d] = modZ(val[d] * val[s], P); break;
				case 3: reg[d].square(); val[d] = modZ(val[d] * val[d], P); break;
				case 4: reg[d].multiply2(); val[d] = modZ(2 * val[d], P); break;
				default: reg[d] = reg[s]; val[d] = val[s];
			}
			for (int k = 0; k < 4; k++) CHECK(c, fromWords(reg[k].value) == val[k], "program step %d register %d: got %s, expected %s", i, k, hexZ(fromWords(reg[k].value)).c_str(), hexZ(val[k]).c_str());
		}
		c.hit("programs");
	}
}
static RegisterSuite s3("field", fieldCase);
