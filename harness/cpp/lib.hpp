// Conversions between the oracle's integers and the library's types (public API only).
#pragma once
#include "common.hpp"
#include "CurvePoint.hpp"
#include "FieldInt.hpp"
#include "Uint256.hpp"

inline Uint256 U(const mpz_class &v) { Uint256 r; toWords(v, r.value); return r; }
inline FieldInt F(const mpz_class &v) { return FieldInt(U(v)); }   // v must be below the prime
inline mpz_class ZU(const Uint256 &u) { return fromWords(u.value); }
inline mpz_class ZF(const FieldInt &u) { return fromWords(u.value); }
inline CurvePoint CPoint(const Pt &p) { return p.inf ? CurvePoint::ZERO : CurvePoint(F(p.x), F(p.y)); }
// Mathematical value of a projective triple (z == 0 means the point at infinity).
inline Pt affine(const CurvePoint &p) {
	mpz_class z = ZF(p.z);
	if (z == 0) return Pt();
	mpz_class zi = invZ(z, Curve::P);
	return Pt(modZ(ZF(p.x) * zi, Curve::P), modZ(ZF(p.y) * zi, Curve::P));
}
inline std::string showPoint(const CurvePoint &p) { return "(" + hexZ(ZF(p.x)) + "," + hexZ(ZF(p.y)) + "," + hexZ(ZF(p.z)) + ")"; }
inline std::string showPt(const Pt &p) { return p.inf ? "infinity" : "(" + hexZ(p.x) + "," + hexZ(p.y) + ")"; }
inline CurvePoint scaled(const CurvePoint &p, const mpz_class &l) {
	CurvePoint q = p;
	q.x = F(modZ(ZF(p.x) * l, Curve::P)); q.y = F(modZ(ZF(p.y) * l, Curve::P)); q.z = F(modZ(ZF(p.z) * l, Curve::P));
	return q;
}
