#include "common.hpp"
#include "lib.hpp"

using std::string;
static const mpz_class &P = Curve::P, &N = Curve::N;

mpz_class genScalar(Rng &r) {   // any 256-bit value, biased
	switch (r.below(10)) {
		case 0: return r.below(40);
		case 1: return N - 20 + r.below(40);
		case 2: return 2 * N > Curve::TWO256 ? mpz_class(Curve::TWO256 - 1 - r.below(20)) : mpz_class(2 * N);
		case 3: return modZ(Curve::LAMBDA * (1 + r.below(5)), N);
		case 4: { mpz_class v = 0; for (int i = 0; i < 64; i++) v = v * 16 + (r.chance(1, 2) ? 0 : r.chance(1, 2) ? 15 : r.below(16)); return v; }
		default: return gen256(r);
	}
}

// A pool of curve points with known discrete logs where available.
Pt genPoint(Rng &r) {
	static const std::vector<Pt> pool = [] {
		std::vector<Pt> pool;
		pool.push_back(ptG());
		for (int i = 2; i <= 40; i++) pool.push_back(ptAdd(pool.back(), ptG()));
		for (int i = 0; i < 40; i++) pool.push_back(ptNeg(pool[i]));
		for (int i = 0; i < 20; i++) { Pt q = pool[i]; q.x = modZ(q.x * Curve::BETA, P); pool.push_back(q); q.x = modZ(q.x * Curve::BETA, P); pool.push_back(q); }  // endomorphism: same y
		for (int x = 1; x < 60; x++) { Pt q; if (liftX(x, x & 1, q)) pool.push_back(q); }
		for (int x = 1; x < 60; x++) { Pt q; if (liftX(P - x, x & 1, q)) pool.push_back(q); }
		for (int x = 0; x < 40; x++) { Pt q; if (liftX(N + x, x & 1, q)) pool.push_back(q); }
		pool.push_back(ptMul(ptG(), (N - 1) / 2)); pool.push_back(ptMul(ptG(), (N + 1) / 2)); pool.push_back(ptMul(ptG(), mpz_class(1) << 255));
		return pool;
	}();
	switch (r.below(4)) {
		case 0: return ptMul(ptG(), genScalar(r));
		case 1: { Pt q; for (;;) if (liftX(genBelow(r, P), r.chance(1, 2), q)) return q; }
		default: return pool[r.below(pool.size())];
	}
}

static mpz_class genScale(Rng &r) {
	mpz_class l;
	do { switch (r.below(6)) { case 0: l = 2; break; case 1: l = P - 1; break; case 2: l = Curve::BETA; break; default: l = genBelow(r, P); } } while (l == 0);
	return l;
}
// A projective representation of the point; sometimes normalized.
CurvePoint represent(Rng &r, const Pt &p) {
	if (p.inf) { CurvePoint z = CurvePoint::ZERO; if (r.chance(1, 2)) z.y = F(genScale(r)); return z; }
	CurvePoint q = CPoint(p);
	return r.chance(2, 5) ? q : scaled(q, genScale(r));
}

static void checkPoint(Ctx &c, const char *op, const CurvePoint &got, const Pt &want) {
	c.observe(got.x.value, 32); c.observe(got.y.value, 32); c.observe(got.z.value, 32);
	for (const FieldInt *f : {&got.x, &got.y, &got.z}) CHECK(c, ZF(*f) < P, "%s: coordinate out of range: %s", op, showPoint(got).c_str());
	if (want.inf) CHECK(c, ZF(got.x) == 0 && ZF(got.y) != 0 && ZF(got.z) == 0 && got.isZero(), "%s: got %s, expected the zero point", op, showPoint(got).c_str());
	else {
		CHECK(c, ZF(got.z) != 0 && affine(got) == want, "%s: got %s = %s, expected %s", op, showPoint(got).c_str(), showPt(affine(got)).c_str(), showPt(want).c_str());
		CHECK(c, !got.isZero(), "%s: isZero() is true for %s", op, showPoint(got).c_str());
	}
}
static void checkNorm(Ctx &c, const char *op, const CurvePoint &got, const Pt &want) {
	checkPoint(c, op, got, want);
	CHECK(c, want.inf ? ZF(got.x) == 0 && ZF(got.y) == 1 && ZF(got.z) == 0 : ZF(got.z) == 1, "%s: result %s is not normalized", op, showPoint(got).c_str());
	CHECK(c, got == CPoint(want) && !(got != CPoint(want)), "%s: equality with the normalized value is false", op);
}

// add / twice / normalize / predicates
static void pointCase(Ctx &c) {
	Rng &r = c.rng;
	Pt a = r.chance(1, 14) ? Pt() : genPoint(r), b;
	const char *rel;
	switch (r.below(9)) {
		case 0: b = a; rel = "equal"; break;
		case 1: b = ptNeg(a); rel = "opposite"; break;
		case 2: b = Pt(); rel = "zero"; break;
		case 3: b = a; if (!b.inf) b.x = modZ(b.x * Curve::BETA, P); rel = "same-y"; break;
		case 4: b = ptNeg(a); if (!b.inf) b.x = modZ(b.x * Curve::BETA, P); rel = "opposite-y"; break;
		default: b = genPoint(r); rel = "independent";
	}
	if (r.chance(1, 2)) std::swap(a, b);
	CurvePoint ra = represent(r, a), rb = represent(r, b);
	if (!a.inf && r.chance(1, 6)) {   // a raw coordinate takes a special value
		const mpz_class co[3] = {a.x, a.y, 1}; size_t i = r.below(2);
		static const mpz_class special[] = {1, 2, P - 1, P - 2, N, N + 1, Curve::TWO256 - P, Curve::TWO256 / 2};
		if (co[i] != 0) { ra = scaled(CPoint(a), modZ(special[r.below(8)] * invZ(co[i], P), P)); c.hit("special-raw-coordinate"); }
	}
	if (!a.inf && !b.inf && r.chance(1, 5)) {   // a raw coordinate of one operand coincides with a raw coordinate of the other
		const mpz_class ca[3] = {ZF(ra.x), ZF(ra.y), ZF(ra.z)}, cb[3] = {b.x, b.y, 1}; size_t i = r.below(3), j = r.chance(2, 3) ? i : r.below(3);
		if (ca[i] != 0 && cb[j] != 0) { rb = scaled(CPoint(b), modZ(ca[i] * invZ(cb[j], P), P)); c.hit("coinciding-raw-coordinates"); }
	}
	c.note(string("p=") + showPoint(ra) + " q=" + showPoint(rb));
	c.nontrivial(hashBytes(c.describe.data(), c.describe.size()));
	c.hit(string("add.") + rel + (a.inf ? ".p=zero" : "")); 
	Placed<CurvePoint> x(r, ra), y(r, rb);
	const CurvePoint y0 = *y;
	x->add(*y);
	checkPoint(c, "add", *x, ptAdd(a, b));
	CHECK(c, *y == y0, "add modified its other operand");
	if (c.idx % 8 == 0) {
		Placed<CurvePoint> n(r, *x); n->normalize(); checkNorm(c, "normalize after add", *n, ptAdd(a, b));
		CurvePoint n1 = *n; n->normalize(); CHECK(c, *n == n1, "normalize is not idempotent"); c.hit("normalize");
	}
	*x = ra; y->add(*x); checkPoint(c, "add commuted", *y, ptAdd(a, b));
	*x = ra; x->twice(); checkPoint(c, "twice", *x, ptAdd(a, a));
	// chain: ((a+b)+a) doubled
	Pt s = ptAdd(a, b);
	*x = ra; y->add(*x); s = ptAdd(s, a); checkPoint(c, "chained add", *y, s);
	y->twice(); s = ptAdd(s, s); checkPoint(c, "chained twice", *y, s);
	if (r.chance(1, 4)) { CurvePoint g = represent(r, s), m = represent(r, ptNeg(s)); y->add(g); checkPoint(c, "chained double by add", *y, ptAdd(s, s)); y->add(m); y->add(m); checkPoint(c, "cancel to zero", *y, Pt()); y->add(g); checkPoint(c, "zero plus point", *y, s); c.hit("cancellation"); }
	for (uint32_t en = 0; en < 2; en++) {
		*x = ra; *y = rb; x->replace(*y, en);
		CHECK(c, *x == (en ? rb : ra) && *y == rb, "replace with enable %u", en);
	}
	*x = ra;
	CHECK(c, x->isZero() == a.inf, "isZero gave %d for %s", !a.inf, showPoint(ra).c_str());
	// on-curve test on normalized points: on, off, zero
	Pt t = a;
	if (!t.inf && r.chance(1, 2)) {
		switch (r.below(5)) {
			case 0: t.x = modZ(t.x + 1, P); break;
			case 1: t.y = modZ(t.y + 1, P); break;
			case 2: std::swap(t.x, t.y); break;
			case 3: t.x = 0; break;
			default: { mpz_class u = genScale(r); t.x = modZ(t.x * u * u, P); t.y = modZ(t.y * u * u * u, P); } }
	}
	CurvePoint tn = CPoint(t);
	bool oc = tn.isOnCurve();
	c.hit(t.inf ? "isOnCurve.zero" : t.onCurve() ? "isOnCurve.on" : "isOnCurve.off");
	CHECK(c, oc == t.onCurve(), "isOnCurve gave %d for %s", oc, showPt(t).c_str());
	if (!t.inf && t.x != 0) { CurvePoint n2 = scaled(tn, genScale(r)); n2.normalize(); CHECK(c, n2 == tn, "normalize of scaled %s gave %s", showPt(t).c_str(), showPoint(n2).c_str()); }
	// equality distinguishes every coordinate
	CurvePoint e1 = ra;
	CHECK(c, e1 == ra && !(e1 != ra), "a point differs from its copy");
	FieldInt *f[3] = {&e1.x, &e1.y, &e1.z};
	FieldInt *ch = f[r.below(3)];
	*ch = F(modZ(ZF(*ch) + (r.chance(1, 2) ? mpz_class(1) : mpz_class(1) << r.below(255)), P));
	CHECK(c, !(e1 == ra) && (e1 != ra), "points with different coordinates compare equal: %s %s", showPoint(e1).c_str(), showPoint(ra).c_str());
	if (!a.inf) {
		CurvePoint na = CPoint(a);
		Exact out(r, 33);
		na.toCompressedPoint(out.p);
		CHECK(c, out.p[0] == (mpz_odd_p(a.y.get_mpz_t()) ? 3 : 2) && fromBE(out.p + 1, 32) == a.x, "compressed form %s of %s", hexOf(out.p, 33).c_str(), showPt(a).c_str());
		c.hit(mpz_odd_p(a.y.get_mpz_t()) ? "compressed.odd" : "compressed.even");
	}
	if (c.idx % 256 == 0) {
		CHECK(c, ZF(CurvePoint::G.x) == Curve::GX && ZF(CurvePoint::G.y) == Curve::GY && ZF(CurvePoint::G.z) == 1 && ZU(CurvePoint::ORDER) == N, "base point or order constant is wrong");
		CHECK(c, ZF(CurvePoint::ZERO.x) == 0 && ZF(CurvePoint::ZERO.y) == 1 && ZF(CurvePoint::ZERO.z) == 0, "zero point constant is wrong");
	}
}
static RegisterSuite s1("point", pointCase);

// scalar multiplication
static void mulCase(Ctx &c) {
	Rng &r = c.rng;
	Pt a = r.chance(1, 25) ? Pt() : r.chance(1, 3) ? ptG() : genPoint(r);
	mpz_class k = genScalar(r);
	CurvePoint ra = represent(r, a);
	c.note("p=" + showPoint(ra) + " n=" + hexZ(k));
	c.nontrivial(hashBytes(c.describe.data(), c.describe.size()));
	Placed<CurvePoint> x(r, ra);
	Placed<Uint256> n(r, U(k));
	x->multiply(*n);
	Pt want = ptMul(a, k);
	checkPoint(c, "multiply", *x, want);
	CHECK(c, ZU(*n) == k, "multiply modified the scalar");
	c.hit(want.inf ? (a.inf ? "result.zero.from-zero" : "result.zero") : k >= N ? "scalar>=order" : "scalar<order");
	x->normalize();
	checkNorm(c, "normalize", *x, want);
	mpz_class e = modZ(k, N);
	if (e == 0) e = 1;
	if (c.idx % 3 == 0) {
		Placed<Uint256> ee(r, U(e));
		CurvePoint pub = CurvePoint::privateExponentToPublicPoint(*ee);
		checkNorm(c, "privateExponentToPublicPoint", pub, ptMul(ptG(), e));
		CHECK(c, pub.isOnCurve(), "public point is not on the curve");
		c.hit("public-key");
	}
}
static RegisterSuite s2("mul", mulCase);
