// The operations documented as constant-time, with their operands at fixed addresses and generators of secrets.
#pragma once
#include "lib.hpp"
#include "Ecdsa.hpp"
#include "Sha256Hash.hpp"

using std::string;
// Operands live at fixed addresses, results too.
static Uint256 *ua, *ub, *uc; static FieldInt *fa, *fb; static CurvePoint *pa, *pb; static Sha256Hash *ha, *hb;
static uint8_t *bytesIn, *bytesOut; static uint32_t en; static bool okResult;
template<class T> static T *fresh(const T &v) { return new (std::malloc(sizeof(T) + 64)) T(v); }
static uint8_t zero32[32];

struct Op { const char *name; void (*setup)(Ctx &, Rng &pub, Rng &sec, int which); void (*run)(); int weight; };
static mpz_class secret256(Rng &s, int which) {
	switch (which) { case 0: return 0; case 1: return Curve::TWO256 - 1; case 2: return 1; default: return gen256(s); }
}
static mpz_class secretBelow(Rng &s, int which, const mpz_class &m, bool nonzero = false) {
	mpz_class v;
	switch (which) { case 0: v = 0; break; case 1: v = m - 1; break; case 2: v = 1; break; case 3: v = m / 2; break; default: v = genBelow(s, m); }
	if (nonzero && v == 0) v = 2;
	return v;
}
static Pt secretPt(Rng &s, int which) {
	if (which == 0) return Pt();
	if (which == 1) return ptG();
	if (which == 2) return ptNeg(ptG());
	return ptMul(ptG(), genBelow(s, Curve::N - 1) + 1);
}
static CurvePoint secretPoint(Rng &s, int which, bool normalized = false) {
	Pt p = secretPt(s, which);
	CurvePoint q = CPoint(p);
	if (p.inf || normalized || s.chance(1, 3)) return q;
	return scaled(q, genBelow(s, Curve::P - 1) + 1);
}
#define SETUP [](Ctx &, Rng &pub, Rng &sec, int which) { (void)pub; (void)sec; (void)which;
static const std::vector<Op> &ops() {
	static auto uu = SETUP *ua = U(secret256(sec, which)); *ub = U(which >= 0 && sec.chance(1, 4) ? ZU(*ua) : secret256(sec, static_cast<int>(sec.below(6)))); en = static_cast<uint32_t>(sec.below(2)); };
	static auto ff = SETUP *fa = F(secretBelow(sec, which, Curve::P)); *fb = F(sec.chance(1, 4) ? ZF(*fa) : secretBelow(sec, static_cast<int>(sec.below(8)), Curve::P)); en = static_cast<uint32_t>(sec.below(2)); };
	static auto pp = SETUP *pa = secretPoint(sec, which); *pb = sec.chance(1, 4) ? *pa : sec.chance(1, 4) ? CPoint(ptNeg(affine(*pa))) : secretPoint(sec, static_cast<int>(sec.below(6))); en = static_cast<uint32_t>(sec.below(2)); };
	static auto hh = SETUP Bytes a = toBE(secret256(sec, which), 32), b = sec.chance(1, 3) ? a : toBE(secret256(sec, static_cast<int>(sec.below(6))), 32);
		if (sec.chance(1, 3)) { b = a; b[sec.below(32)] ^= static_cast<uint8_t>(1u << sec.below(8)); }
		std::memcpy(ha->value, a.data(), 32); std::memcpy(hb->value, b.data(), 32); std::memcpy(bytesIn, a.data(), 32); };
	static volatile uint32_t sink; static volatile bool bsink;
	static const std::vector<Op> v = {
		{"Uint256.add", uu, [] { sink = ua->add(*ub, en); }, 1},
		{"Uint256.subtract", uu, [] { sink = ua->subtract(*ub, en); }, 1},
		{"Uint256.shiftLeft1", uu, [] { sink = ua->shiftLeft1(); }, 1},
		{"Uint256.shiftRight1", uu, [] { ua->shiftRight1(en); }, 1},
		{"Uint256.replace", uu, [] { ua->replace(*ub, en); }, 1},
		{"Uint256.swap", uu, [] { ua->swap(*ub, en); }, 1},
		{"Uint256.getBigEndianBytes", uu, [] { ua->getBigEndianBytes(bytesOut); }, 1},
		{"Uint256.==", uu, [] { bsink = *ua == *ub; }, 1}, {"Uint256.!=", uu, [] { bsink = *ua != *ub; }, 1},
		{"Uint256.<", uu, [] { bsink = *ua < *ub; }, 1}, {"Uint256.<=", uu, [] { bsink = *ua <= *ub; }, 1},
		{"Uint256.>", uu, [] { bsink = *ua > *ub; }, 1}, {"Uint256.>=", uu, [] { bsink = *ua >= *ub; }, 1},
		{"Uint256(bytes)", hh, [] { *uc = Uint256(static_cast<const uint8_t *>(bytesIn)); }, 1},
		{"Uint256(FieldInt)", ff, [] { *uc = Uint256(*fa); }, 1},
		{"Uint256.reciprocal", SETUP
			mpz_class m; switch (pub.below(4)) { case 0: m = Curve::N; break; case 1: m = Curve::P; break; case 2: m = 2 * genBelow(pub, Curve::TWO256 / 2) + 1; break; default: m = Curve::TWO256 - 1; }
			if (m < 3) m = 3;
			mpz_class x; for (int tries = 0; ; tries++) { x = modZ(secretBelow(sec, tries == 0 ? which : 9, m), m); if (x == 0 || gcd(x, m) == 1) break; }
			*ua = U(x); *ub = U(m); }, [] { ua->reciprocal(*ub); }, 2},
		{"FieldInt(Uint256)", uu, [] { *fa = FieldInt(*ua); }, 1},
		{"FieldInt.add", ff, [] { fa->add(*fb); }, 1}, {"FieldInt.subtract", ff, [] { fa->subtract(*fb); }, 1},
		{"FieldInt.multiply2", ff, [] { fa->multiply2(); }, 1}, {"FieldInt.square", ff, [] { fa->square(); }, 1},
		{"FieldInt.multiply", ff, [] { fa->multiply(*fb); }, 2}, {"FieldInt.reciprocal", ff, [] { fa->reciprocal(); }, 2},
		{"FieldInt.replace", ff, [] { fa->replace(*fb, en); }, 1},
		{"FieldInt.==", ff, [] { bsink = *fa == *fb; }, 1}, {"FieldInt.!=", ff, [] { bsink = *fa != *fb; }, 1}, {"FieldInt.<", ff, [] { bsink = *fa < *fb; }, 1},
		{"FieldInt.<=", ff, [] { bsink = *fa <= *fb; }, 1}, {"FieldInt.>", ff, [] { bsink = *fa > *fb; }, 1}, {"FieldInt.>=", ff, [] { bsink = *fa >= *fb; }, 1},
		{"FieldInt.getBigEndianBytes", ff, [] { fa->getBigEndianBytes(bytesOut); }, 1},
		{"CurvePoint(x,y)", ff, [] { *pa = CurvePoint(*fa, *fb); }, 1},
		{"CurvePoint.add", pp, [] { pa->add(*pb); }, 3}, {"CurvePoint.twice", pp, [] { pa->twice(); }, 2},
		{"CurvePoint.normalize", pp, [] { pa->normalize(); }, 2}, {"CurvePoint.replace", pp, [] { pa->replace(*pb, en); }, 1},
		{"CurvePoint.isZero", pp, [] { bsink = pa->isZero(); }, 1},
		{"CurvePoint.==", pp, [] { bsink = *pa == *pb; }, 1}, {"CurvePoint.!=", pp, [] { bsink = *pa != *pb; }, 1},
		{"CurvePoint.isOnCurve", SETUP *pa = secretPoint(sec, which, true); if (sec.chance(1, 3)) pa->y = F(genBelow(sec, Curve::P)); }, [] { bsink = pa->isOnCurve(); }, 1},
		{"CurvePoint.toCompressedPoint", SETUP *pa = secretPoint(sec, which == 0 ? 5 : which, true); }, [] { pa->toCompressedPoint(bytesOut); }, 1},
		{"CurvePoint.multiply", SETUP *pa = secretPoint(sec, static_cast<int>(sec.below(6))); *ua = U(secret256(sec, which)); }, [] { pa->multiply(*ua); }, 6},
		{"CurvePoint.privateExponentToPublicPoint", SETUP *ua = U(secretBelow(sec, which, Curve::N, true)); }, [] { *pa = CurvePoint::privateExponentToPublicPoint(*ua); }, 4},
		{"Ecdsa.sign", SETUP *ua = U(secretBelow(sec, which, Curve::N, true)); *ub = U(secretBelow(sec, static_cast<int>(sec.below(8)), Curve::N, true)); Bytes h = toBE(secret256(sec, static_cast<int>(sec.below(6))), 32); std::memcpy(ha->value, h.data(), 32); },
			[] { okResult = Ecdsa::sign(*ua, *ha, *ub, *uc, *ua); }, 6},
		{"Ecdsa.signWithHmacNonce", SETUP *ua = U(secretBelow(sec, which, Curve::N, true)); Bytes h = toBE(secret256(sec, static_cast<int>(sec.below(6))), 32); std::memcpy(ha->value, h.data(), 32); },
			[] { okResult = Ecdsa::signWithHmacNonce(*ua, *ha, *uc, *ub); }, 6},
		{"Sha256Hash(bytes)", hh, [] { *ha = Sha256Hash(bytesIn, 32); }, 1},
		{"Sha256Hash.==", hh, [] { bsink = *ha == *hb; }, 1}, {"Sha256Hash.!=", hh, [] { bsink = *ha != *hb; }, 1},
	};
	return v;
}
static void initOps() {
	ua = fresh(Uint256::ZERO); ub = fresh(Uint256::ZERO); uc = fresh(Uint256::ZERO); fa = fresh(F(0)); fb = fresh(F(0)); pa = fresh(CurvePoint::ZERO); pb = fresh(CurvePoint::ZERO);
	ha = fresh(Sha256Hash(zero32, 32)); hb = fresh(Sha256Hash(zero32, 32));
	bytesIn = static_cast<uint8_t *>(std::malloc(128)); bytesOut = static_cast<uint8_t *>(std::malloc(128));
}
static string describeOperands(const char *name, int s) {
	return strf("%s secret#%d a=", name, s) + hexOf(ua->value, 32) + " b=" + hexOf(ub->value, 32) + " fa=" + hexOf(fa->value, 32) + " fb=" + hexOf(fb->value, 32) + " pa=" + showPoint(*pa) + " h=" + hexOf(ha->value, 32) + strf(" enable=%u", en);
}
