#include "common.hpp"
#include "lib.hpp"
#include "Ecdsa.hpp"
#include "Sha256Hash.hpp"

using std::string;
static const mpz_class &P = Curve::P, &N = Curve::N;
mpz_class genScalar(Rng &r);
Pt genPoint(Rng &r);
CurvePoint represent(Rng &r, const Pt &p);

// The HMAC is intercepted at link time (--wrap) in some cases, so that derived nonces that are improbable (zero, at or
// above the order, making s zero or at its boundary) are reached; the real HMAC runs otherwise.
static thread_local const Bytes *inject = nullptr;
static thread_local uint64_t injected = 0;
extern "C" {
	Sha256Hash __real__ZN6Sha2567getHmacEPKhmS1_m(const uint8_t *, size_t, const uint8_t *, size_t) __attribute__((weak));
	Sha256Hash __wrap__ZN6Sha2567getHmacEPKhmS1_m(const uint8_t *k, size_t kl, const uint8_t *m, size_t ml) {
		if (inject) { injected++; return Sha256Hash(inject->data(), 32); }
		return __real__ZN6Sha2567getHmacEPKhmS1_m(k, kl, m, ml);
	}
}
// Likewise the nonce's multiple of the base point, whose x-coordinate is at or above the order with probability 2^-128.
static thread_local const CurvePoint *injectPoint = nullptr;
static thread_local uint64_t injectedPoints = 0; static thread_local bool injectedForNonce = true; static thread_local const mpz_class *injectNonce = nullptr;
extern "C" {
	CurvePoint __real__ZN10CurvePoint28privateExponentToPublicPointERK7Uint256(const Uint256 &) __attribute__((weak));
	CurvePoint __wrap__ZN10CurvePoint28privateExponentToPublicPointERK7Uint256(const Uint256 &k) {
		if (injectPoint) { injectedPoints++; if (ZU(k) != *injectNonce) injectedForNonce = false; return *injectPoint; }
		return __real__ZN10CurvePoint28privateExponentToPublicPointERK7Uint256(k);
	}
}

static mpz_class genKey(Rng &r) { mpz_class k; do k = modZ(genScalar(r), N); while (k == 0); return k; }
static mpz_class genHash(Rng &r) {
	switch (r.below(6)) {
		case 0: return N + genBelow(r, Curve::TWO256 - N);      // at or above the order
		case 1: return Curve::TWO256 - 1 - r.below(4);
		case 2: return modZ(N - 2 + r.below(5), Curve::TWO256);
		default: return gen256(r);
	}
}
static mpz_class genTargetS(Rng &r) {
	switch (r.below(8)) {
		case 0: return 0;
		case 1: return 1 + r.below(3);
		case 2: return (N - 1) / 2;
		case 3: return (N + 1) / 2;
		case 4: return N - 1 - r.below(3);
		case 5: return modZ((N - 1) / 2 - 3 + r.below(8), N);
		default: return genBelow(r, N);
	}
}
// Reference signature. Returns false if the nonce is unusable or s is zero.
static bool refSign(const mpz_class &d, const mpz_class &z, const mpz_class &k, mpz_class &rr, mpz_class &ss, const Pt *point = nullptr) {
	if (k <= 0 || k >= N) return false;
	rr = modZ(point ? point->x : ptMul(ptG(), k).x, N);
	if (rr == 0) return false;
	ss = modZ(invZ(k, N) * (z + rr * d), N);
	if (ss == 0) return false;
	if (ss > N - ss) ss = N - ss;
	return true;
}

static void signOnce(Ctx &c, const mpz_class &d, const mpz_class &z, const mpz_class &k, bool hmac, bool force = false) {
	Rng &r = c.rng;
	mpz_class er, es;
	mpz_class nonce = k;
	if (hmac) { Bytes h = refHmac256(toBE(d, 32), toBE(z, 32)); nonce = fromBE(h.data(), 32); }
	Placed<Uint256> pd(r, U(d)), pk(r, U(k));
	Bytes hb = toBE(z, 32);
	Placed<Sha256Hash> ph(r, hb.data(), 32);
	mpz_class sr = gen256(r), sv = gen256(r);   // sentinels
	Placed<Uint256> outR(r, U(sr)), outS(r, U(sv));
	Bytes forced = toBE(k, 32); uint64_t before = injected;
	if (force) { inject = &forced; c.muted = true; }
	bool got = hmac ? Ecdsa::signWithHmacNonce(*pd, *ph, *outR, *outS) : Ecdsa::sign(*pd, *ph, *pk, *outR, *outS);
	inject = nullptr;
	if (force && injected != before) {
		if (injected != before + 1) { c.hit("hmac.calls-unexpected"); return; }
		nonce = k; c.hit("forced-nonce");
	}
	bool want = refSign(d, z, nonce, er, es);
	c.observe(&got, 1); c.observe(outR->value, 32); c.observe(outS->value, 32);
	CHECK(c, got == want, "signing returned %d, expected %d", got, want);
	if (!want) {
		CHECK(c, ZU(*outR) == sr && ZU(*outS) == sv, "failed signing changed an output: r=%s s=%s", hexZ(ZU(*outR)).c_str(), hexZ(ZU(*outS)).c_str());
		c.hit(nonce == 0 ? "fail.nonce=0" : nonce >= N ? "fail.nonce>=order" : "fail.s=0");
	} else {
		CHECK(c, ZU(*outR) == er && ZU(*outS) == es, "signature r=%s s=%s, expected r=%s s=%s", hexZ(ZU(*outR)).c_str(), hexZ(ZU(*outS)).c_str(), hexZ(er).c_str(), hexZ(es).c_str());
		CHECK(c, er > 0 && er < N && es > 0 && es <= N / 2, "signature out of range");
		c.hit(hmac ? "ok.hmac" : "ok");
		if (z >= N) c.hit("ok.hash>=order");
	}
	CHECK(c, ZU(*pd) == d && ZU(*pk) == k && std::memcmp(ph->value, hb.data(), 32) == 0, "signing modified an input");
}

// Key, hash and nonce, often solved for a chosen s or a chosen product.
static void genTriple(Ctx &c, mpz_class &d, mpz_class &z, mpz_class &k, string &kind) {
	Rng &r = c.rng;
	d = genKey(r); z = genHash(r);
	if (c.idx == 0) {   // historic failure: z >= n together with r*d just below n
		k = 1; d = modZ(-invZ(Curve::GX, N), N); z = Curve::TWO256 - 1; kind = "sum>=2n";
	} else switch (r.below(8)) {
		case 0: k = r.chance(1, 2) ? mpz_class(0) : modZ(N + (r.chance(1, 2) ? mpz_class(static_cast<long>(r.below(5))) : genBelow(r, Curve::TWO256 - N)), Curve::TWO256); kind = "bad-nonce"; break;
		case 1: case 2: case 3: {   // solve for the private key that makes s hit a chosen target before the low-S step
			k = genKey(r);
			mpz_class rr = modZ(ptMul(ptG(), k).x, N), s = genTargetS(r);
			d = modZ((s * k - z) * invZ(rr, N), N);
			if (d == 0) d = 1;
			kind = s == 0 ? "s=0" : "chosen-s"; break;
		}
		case 4: {   // r*d mod n at a chosen place with a large hash
			k = genKey(r);
			mpz_class rr = modZ(ptMul(ptG(), k).x, N);
			mpz_class t = r.chance(1, 2) ? mpz_class(N - 1 - r.below(1000)) : modZ(N - modZ(z, N) + r.below(5) - 2, N);
			d = modZ(t * invZ(rr, N), N);
			if (d == 0) d = 1;
			kind = "chosen-rd"; break;
		}
		default: k = genKey(r); kind = "random";
	}
}
// Signing when the nonce's point has a chosen x-coordinate: r is that coordinate reduced modulo the order, and zero is refused.
static void signPoint(Ctx &c) {
	Rng &r = c.rng;
	mpz_class d = genKey(r), z = genHash(r), k = genKey(r), er, es; Pt R;
	const char *kind; mpz_class x;
	for (;;) {
		switch (r.below(6)) {
			case 0: kind = "x=order"; x = N; break;
			case 1: kind = "x>order"; x = N + static_cast<long>(1 + r.below(40)); break;
			case 2: kind = "x>order"; x = N + genBelow(r, P - N); break;
			case 3: kind = "x-near-prime"; x = P - 1 - static_cast<long>(r.below(40)); break;
			case 4: kind = "x<order"; x = N - 1 - static_cast<long>(r.below(40)); break;
			default: kind = "x-any"; x = genBelow(r, P);
		}
		if (liftX(x, r.chance(1, 2), R)) break;
	}
	if (r.chance(1, 2) && modZ(x, N) != 0) {   // solve for the key that gives a chosen s
		mpz_class s = genTargetS(r);
		d = modZ((s * k - z) * invZ(modZ(x, N), N), N);
		if (d == 0) d = 1;
	}
	c.note("priv=" + hexZ(d) + " hash=" + hexZ(z) + " nonce=" + hexZ(k) + " nonce point forced to x=" + hexZ(x));
	c.nontrivial(hashBytes(c.describe.data(), c.describe.size()));
	CurvePoint q = CPoint(R);
	mpz_class sr = gen256(r), sv = gen256(r);
	Placed<Uint256> pd(r, U(d)), pk(r, U(k)), outR(r, U(sr)), outS(r, U(sv));
	Bytes hb = toBE(z, 32);
	Placed<Sha256Hash> ph(r, hb.data(), 32);
	uint64_t before = injectedPoints; injectedForNonce = true; injectNonce = &k;
	injectPoint = &q; c.muted = true;
	bool got = Ecdsa::sign(*pd, *ph, *pk, *outR, *outS);
	injectPoint = nullptr;
	c.observe(&got, 1); c.observe(outR->value, 32); c.observe(outS->value, 32);
	bool forced = injectedPoints == before + 1 && injectedForNonce;
	if (!forced && injectedPoints != before) { c.hit("point.calls-unexpected"); return; }
	bool want = refSign(d, z, k, er, es, forced ? &R : nullptr);
	CHECK(c, got == want, "signing returned %d, expected %d (%s)", got, want, kind);
	if (!want) { er = sr; es = sv; }
	CHECK(c, ZU(*outR) == er && ZU(*outS) == es, "outputs r=%s s=%s, expected r=%s s=%s", hexZ(ZU(*outR)).c_str(), hexZ(ZU(*outS)).c_str(), hexZ(er).c_str(), hexZ(es).c_str());
	c.hit(string(forced ? "forced-point." : "unforced-point.") + kind + (want ? "" : ".refused"));
}
static void signCase(Ctx &c) {
	if (c.idx % 4 == 3) { signPoint(c); return; }
	mpz_class d, z, k; string kind;
	genTriple(c, d, z, k, kind);
	c.note("priv=" + hexZ(d) + " hash=" + hexZ(z) + " nonce=" + hexZ(k) + " kind=" + kind);
	c.nontrivial(hashBytes(c.describe.data(), c.describe.size()));
	c.hit("kind." + kind);
	signOnce(c, d, z, k, false);
}
static RegisterSuite s1("sign", signCase);

static void hmacSignCase(Ctx &c) {
	Rng &r = c.rng;
	if (c.idx % 3 == 2) {
		mpz_class d, z, k; string kind;
		genTriple(c, d, z, k, kind);
		c.note("priv=" + hexZ(d) + " hash=" + hexZ(z) + " HMAC forced to " + hexZ(k) + " kind=" + kind);
		c.nontrivial(hashBytes(c.describe.data(), c.describe.size()));
		signOnce(c, d, z, k, true, true); c.hit("forced." + kind);
		return;
	}
	mpz_class d = genKey(r), z = genHash(r);
	c.note("priv=" + hexZ(d) + " hash=" + hexZ(z));
	c.nontrivial(hashBytes(c.describe.data(), c.describe.size()));
	signOnce(c, d, z, 0, true);
	if (c.idx % 4 == 0) { signOnce(c, d, z, 0, true); c.hit("repeat"); }   // deterministic: same answer again
}
static RegisterSuite s2("hmacsign", hmacSignCase);

static bool refVerify(const CurvePoint &q, const mpz_class &z, const mpz_class &rr, const mpz_class &ss) {
	if (rr <= 0 || rr >= N || ss <= 0 || ss >= N) return false;
	if (ZF(q.z) != 1) return false;
	Pt Q(ZF(q.x), ZF(q.y));
	if (!Q.onCurve()) return false;
	mpz_class w = invZ(ss, N);
	Pt p = ptAdd(ptMul(ptG(), modZ(z * w, N)), ptMul(Q, modZ(rr * w, N)));
	if (p.inf) return false;
	return modZ(p.x, N) == rr;
}
static void verifyOnce(Ctx &c, const char *kind, const CurvePoint &q, const mpz_class &z, const mpz_class &rr, const mpz_class &ss) {
	Rng &r = c.rng;
	bool want = refVerify(q, z, rr, ss);
	Placed<CurvePoint> pq(r, q);
	Bytes hb = toBE(z, 32);
	Placed<Sha256Hash> ph(r, hb.data(), 32);
	Placed<Uint256> pr(r, U(rr)), ps(r, U(ss));
	c.note(strf("%s q=%s hash=%s r=%s s=%s", kind, showPoint(q).c_str(), hexZ(z).c_str(), hexZ(rr).c_str(), hexZ(ss).c_str()));
	bool got = Ecdsa::verify(*pq, *ph, *pr, *ps);
	c.observe(&got, 1);
	c.nontrivial(hashBytes(c.describe.data(), c.describe.size()));
	c.hit(string(want ? "accept." : "reject.") + kind);
	CHECK(c, got == want, "verify returned %d, expected %d (%s)", got, want, kind);
	CHECK(c, *pq == q && ZU(*pr) == rr && ZU(*ps) == ss && std::memcmp(ph->value, hb.data(), 32) == 0, "verify modified an input");
}
// A valid signature made by the reference (not by the code under test).
struct Sig { mpz_class d, z, k, r, s; Pt Q; };
static Sig genSig(Rng &r) {
	Sig g;
	for (;;) {
		g.d = genKey(r); g.z = genHash(r); g.k = genKey(r);
		if (!refSign(g.d, g.z, g.k, g.r, g.s)) continue;
		g.Q = ptMul(ptG(), g.d);
		return g;
	}
}
static mpz_class nz(const mpz_class &v) { return v == 0 ? mpz_class(1) : v; }

static void verifyCase(Ctx &c) {
	Rng &r = c.rng;
	switch (c.idx < 52 ? c.idx % 26 : r.below(26)) {
		case 0: { Sig g = genSig(r); verifyOnce(c, "valid", CPoint(g.Q), g.z, g.r, g.s); break; }
		case 1: { Sig g = genSig(r); verifyOnce(c, "high-s", CPoint(g.Q), g.z, g.r, N - g.s); break; }
		case 2: { Sig g = genSig(r); mpz_class h = g.z; mpz_combit(h.get_mpz_t(), r.below(256)); verifyOnce(c, "altered-hash", CPoint(g.Q), h, g.r, g.s); break; }
		case 3: { Sig g = genSig(r); mpz_class v = g.r; mpz_combit(v.get_mpz_t(), r.below(256)); verifyOnce(c, "altered-r", CPoint(g.Q), g.z, v, g.s); break; }
		case 4: { Sig g = genSig(r); mpz_class v = g.s; mpz_combit(v.get_mpz_t(), r.below(256)); verifyOnce(c, "altered-s", CPoint(g.Q), g.z, g.r, v); break; }
		case 5: { Sig g = genSig(r); verifyOnce(c, "other-key", CPoint(r.chance(1, 2) ? ptNeg(g.Q) : ptAdd(g.Q, ptG())), g.z, g.r, g.s); break; }
		case 6: { Sig g = genSig(r); CurvePoint q = scaled(CPoint(g.Q), 2 + genBelow(r, P - 2)); verifyOnce(c, "unnormalized-key", q, g.z, g.r, g.s); break; }
		case 7: {   // zero key with a signature that satisfies the equation for Q = infinity
			mpz_class s = genKey(r), z = genHash(r), u1 = modZ(z * invZ(s, N), N);
			Pt p = ptMul(ptG(), u1);
			mpz_class rr = p.inf ? mpz_class(1) : nz(modZ(p.x, N));
			CurvePoint q = represent(r, Pt());
			verifyOnce(c, "zero-key", q, z, rr, s); break;
		}
		case 8: {   // off-curve key on an isomorphic curve of the same order, forged with u1 = 0
			Pt Q = genPoint(r); mpz_class u = 2 + genBelow(r, P - 3);
			Pt W(modZ(Q.x * u * u, P), modZ(Q.y * u * u * u, P));
			mpz_class t = genKey(r); Pt T = ptMul(Q, t);
			mpz_class rr = nz(modZ(modZ(T.x * u * u, P), N)), s = modZ(rr * invZ(t, N), N);
			verifyOnce(c, "isomorphic-curve-key", CPoint(W), r.chance(1, 2) ? mpz_class(0) : N, rr, s); break;
		}
		case 9: {   // off-curve garbage keys
			Sig g = genSig(r); Pt W = g.Q;
			switch (r.below(4)) { case 0: W.y = modZ(W.y + 1, P); break; case 1: W.x = modZ(W.x + 1, P); break; case 2: std::swap(W.x, W.y); break; default: W = Pt(genBelow(r, P), genBelow(r, P)); }
			CurvePoint q(F(W.x), F(W.y));
			verifyOnce(c, "off-curve-key", q, g.z, g.r, g.s); break;
		}
		case 10: {   // s + n with small s
			mpz_class k = genKey(r), z = genHash(r), rr = modZ(ptMul(ptG(), k).x, N), s = 1 + genBelow(r, Curve::TWO256 - N - 1);
			mpz_class d = nz(modZ((s * k - z) * invZ(rr, N), N)); Pt Q = ptMul(ptG(), d);
			verifyOnce(c, "small-s", CPoint(Q), z, rr, s); verifyOnce(c, "s+order", CPoint(Q), z, rr, s + N); break;
		}
		case 11: case 12: {   // nonce point with x >= n: r wraps; also the unreduced r
			Pt R; for (;;) if (liftX(N + genBelow(r, P - N), r.chance(1, 2), R)) break;
			mpz_class rr = modZ(R.x, N), s = genKey(r), z = genHash(r), ri = invZ(rr, N);
			if (rr == 0) break;
			Pt Q = ptAdd(ptMul(R, modZ(s * ri, N)), ptMul(ptG(), modZ(-z * ri, N)));
			if (Q.inf) break;
			verifyOnce(c, "x>=order", CPoint(Q), z, rr, s);
			verifyOnce(c, "x>=order.unreduced-r", CPoint(Q), z, rr + N, s); break;
		}
		case 13: {   // small r from a small-x nonce point; r + n must be rejected
			Pt R; for (;;) if (liftX(1 + genBelow(r, Curve::TWO256 - N - 1), r.chance(1, 2), R)) break;
			mpz_class rr = modZ(R.x, N), s = genKey(r), z = genHash(r), ri = invZ(rr, N);
			Pt Q = ptAdd(ptMul(R, modZ(s * ri, N)), ptMul(ptG(), modZ(-z * ri, N)));
			if (Q.inf || rr == 0) break;
			verifyOnce(c, "small-r", CPoint(Q), z, rr, s);
			if (rr + N < Curve::TWO256) verifyOnce(c, "r+order", CPoint(Q), z, rr + N, s);
			break;
		}
		case 14: { Sig g = genSig(r); verifyOnce(c, "r=0", CPoint(g.Q), g.z, 0, g.s); verifyOnce(c, "s=0", CPoint(g.Q), g.z, g.r, 0); break; }
		case 15: { Sig g = genSig(r); mpz_class big = N + genBelow(r, Curve::TWO256 - N); verifyOnce(c, "r>=order", CPoint(g.Q), g.z, r.chance(1, 3) ? N : big, g.s); verifyOnce(c, "s>=order", CPoint(g.Q), g.z, g.r, r.chance(1, 3) ? N : big); break; }
		case 16: {   // u1*G + u2*Q = infinity
			mpz_class d = genKey(r), rr = genKey(r), s = genKey(r), z = modZ(-rr * d, N);
			verifyOnce(c, "sum-infinity", CPoint(ptMul(ptG(), d)), z, rr, s); break;
		}
		case 17: {   // u1*G == u2*Q: the final addition is a doubling
			mpz_class d = genKey(r), t = genKey(r);   // s = 2 z / k with z = r d
			mpz_class k = t; Pt R = ptMul(ptG(), k); mpz_class rr = modZ(R.x, N);
			if (rr == 0) break;
			mpz_class z = modZ(rr * d, N), s = modZ(2 * z * invZ(k, N), N);
			verifyOnce(c, "final-doubling", CPoint(ptMul(ptG(), d)), z, rr, s); break;
		}
		case 18: {   // z = 0 or n: u1 = 0
			mpz_class d = genKey(r), k = genKey(r), z = r.chance(1, 2) ? mpz_class(0) : N, rr, s;
			if (!refSign(d, z, k, rr, s)) break;
			verifyOnce(c, "u1=0", CPoint(ptMul(ptG(), d)), z, rr, s); break;
		}
		case 19: {   // special keys
			mpz_class d = r.chance(1, 2) ? mpz_class(1 + r.below(4)) : mpz_class(N - 1 - r.below(4)), k = genKey(r), z = genHash(r), rr, s;
			if (!refSign(d, z, k, rr, s)) break;
			verifyOnce(c, "special-key", CPoint(ptMul(ptG(), d)), z, rr, s); break;
		}
		case 20: { Sig g = genSig(r); verifyOnce(c, "swapped-r-s", CPoint(g.Q), g.z, g.s, g.r); break; }
		case 21: {   // hash and hash + n are the same message representative
			Sig g = genSig(r); mpz_class small = genBelow(r, Curve::TWO256 - N);
			if (!refSign(g.d, small, g.k, g.r, g.s)) break;
			verifyOnce(c, "hash", CPoint(g.Q), small, g.r, g.s); verifyOnce(c, "hash+order", CPoint(g.Q), small + N, g.r, g.s); break;
		}
		case 22: {   // sign with the code under test, verify with the code under test
			mpz_class d = genKey(r), z = genHash(r); Uint256 rr, ss; Bytes hb = toBE(z, 32);
			Pt Q = ptMul(ptG(), d);
			c.note("round trip priv=" + hexZ(d) + " hash=" + hexZ(z));
			CHECK(c, Ecdsa::signWithHmacNonce(U(d), Sha256Hash(hb.data(), 32), rr, ss), "signing failed");
			CHECK(c, Ecdsa::verify(CurvePoint::privateExponentToPublicPoint(U(d)), Sha256Hash(hb.data(), 32), rr, ss), "own signature rejected");
			c.hit("accept.round-trip");
			verifyOnce(c, "own-signature", CPoint(Q), z, ZU(rr), ZU(ss)); break;
		}
		case 23: {   // X, Y satisfy the affine equation although Z is not 1, and (X/Z, Y/Z) is on the curve as well
			for (;;) {
				Pt W = genPoint(r);
				if (W.inf) continue;
				mpz_class disc = modZ(49 + 28 * W.x * W.x * W.x, P), root, e = (P + 1) / 4;
				mpz_powm(root.get_mpz_t(), disc.get_mpz_t(), e.get_mpz_t(), P.get_mpz_t());
				if (modZ(root * root, P) != disc) continue;
				if (r.chance(1, 2)) root = -root;
				mpz_class z = modZ((root - 7) * invZ(14, P), P);
				if (z == 0 || z == 1) continue;
				CurvePoint q = scaled(CPoint(Pt(modZ(W.x * invZ(z, P), P), modZ(W.y * invZ(z, P), P))), z);
				CHECK(c, ZF(q.x) == W.x && ZF(q.y) == W.y && affine(q).onCurve(), "HARNESS: twin representation");
				Pt Q = affine(q); mpz_class u1 = genKey(r), u2 = genKey(r); Pt R = ptAdd(ptMul(ptG(), u1), ptMul(Q, u2));   // no private key needed
				if (R.inf) continue;
				mpz_class rr = nz(modZ(R.x, N)), s = modZ(rr * invZ(u2, N), N);
				verifyOnce(c, "unnormalized-twin-key.same-key-normalized", CPoint(Q), modZ(u1 * s, N), rr, s);
				verifyOnce(c, "unnormalized-twin-key", q, modZ(u1 * s, N), rr, s);
				Pt R2 = ptAdd(ptMul(ptG(), u1), ptMul(W, u2));   // the same for the point that X and Y alone denote
				if (R2.inf) continue;
				rr = nz(modZ(R2.x, N)); s = modZ(rr * invZ(u2, N), N);
				verifyOnce(c, "unnormalized-twin-key.affine-reading", q, modZ(u1 * s, N), rr, s);
				break;
			}
			break;
		}
		case 24: { Sig g = genSig(r); CurvePoint q = CPoint(g.Q); q.z = F(r.chance(1, 3) ? mpz_class(0) : mpz_class(2 + genBelow(r, P - 2))); verifyOnce(c, "replaced-z", q, g.z, g.r, g.s); break; }
		default: { Pt Q = genPoint(r); verifyOnce(c, "random-triple", CPoint(Q), genHash(r), gen256(r), gen256(r)); break; }
	}
}
static RegisterSuite s3("verify", verifyCase);
