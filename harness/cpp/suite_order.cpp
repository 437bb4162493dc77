// Constants of the library and user-defined constants, whatever the order in which the object files were initialised.
#include "lib.hpp"
#include "Base58Check.hpp"
#include "Ecdsa.hpp"
#include "Utils.hpp"

// Constants of a program, built before (101) or after (65000) every constant of the library, whose own priority is 65535.
// The values below the modulus are the ones a FieldInt accepts; boundary values among them.
#define VALUES \
	V(0, "0000000000000000000000000000000000000000000000000000000000000000") \
	V(1, "0000000000000000000000000000000000000000000000000000000000000001") \
	V(2, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2e") \
	V(3, "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798") \
	V(4, "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141") \
	V(5, "80000000000000000000000000000000000000000000000000000000fffffc2f")
#define V(i, s) static const FieldInt earlyField##i __attribute__((init_priority(101))) (s); \
	static const Uint256 earlyUint##i __attribute__((init_priority(101))) (s); static const FieldInt plainField##i(s); static const Uint256 plainUint##i(s);
VALUES
#undef V
static const char *const TEXTS[] = {
#define V(i, s) s,
VALUES
#undef V
};
static const FieldInt *const FIELDS[][2] = {
#define V(i, s) {&earlyField##i, &plainField##i},
VALUES
#undef V
};
static const Uint256 *const UINTS[][2] = {
#define V(i, s) {&earlyUint##i, &plainUint##i},
VALUES
#undef V
};

static void orderCase(Ctx &c) {
	c.note("constants");
	CHECK(c, ZU(Uint256::ZERO) == 0 && ZU(Uint256::ONE) == 1, "Uint256::ZERO is %s, ONE is %s", hexZ(ZU(Uint256::ZERO)).c_str(), hexZ(ZU(Uint256::ONE)).c_str());
	CHECK(c, ZF(CurvePoint::FI_ZERO) == 0 && ZF(CurvePoint::FI_ONE) == 1, "FI_ZERO is %s, FI_ONE is %s", hexZ(ZF(CurvePoint::FI_ZERO)).c_str(), hexZ(ZF(CurvePoint::FI_ONE)).c_str());
	CHECK(c, ZF(CurvePoint::A) == 0 && ZF(CurvePoint::B) == 7, "curve parameters are %s, %s", hexZ(ZF(CurvePoint::A)).c_str(), hexZ(ZF(CurvePoint::B)).c_str());
	CHECK(c, ZU(CurvePoint::ORDER) == Curve::N, "ORDER is %s", hexZ(ZU(CurvePoint::ORDER)).c_str());
	CHECK(c, ZF(CurvePoint::G.x) == Curve::GX && ZF(CurvePoint::G.y) == Curve::GY && ZF(CurvePoint::G.z) == 1, "G is %s, %s, %s", hexZ(ZF(CurvePoint::G.x)).c_str(), hexZ(ZF(CurvePoint::G.y)).c_str(), hexZ(ZF(CurvePoint::G.z)).c_str());
	CHECK(c, ZF(CurvePoint::ZERO.x) == 0 && ZF(CurvePoint::ZERO.y) == 1 && ZF(CurvePoint::ZERO.z) == 0, "ZERO is %s, %s, %s", hexZ(ZF(CurvePoint::ZERO.x)).c_str(), hexZ(ZF(CurvePoint::ZERO.y)).c_str(), hexZ(ZF(CurvePoint::ZERO.z)).c_str());
	CHECK(c, CurvePoint::G.isOnCurve() && !CurvePoint::G.isZero() && CurvePoint::ZERO.isZero(), "base point or zero point misjudged");
	{
		FieldInt m(Uint256("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc30"));
		CHECK(c, ZF(m) == 1, "modulus + 1 was reduced to %s", hexZ(ZF(m)).c_str());
	}
	for (size_t i = 0; i < sizeof TEXTS / sizeof TEXTS[0]; i++)
		for (int k = 0; k < 2; k++) {
			mpz_class want(TEXTS[i], 16);
			CHECK(c, ZF(*FIELDS[i][k]) == want, "the program's constant FieldInt(\"%s\") holds %s", TEXTS[i], hexZ(ZF(*FIELDS[i][k])).c_str());
			CHECK(c, ZU(*UINTS[i][k]) == want, "the program's constant Uint256(\"%s\") holds %s", TEXTS[i], hexZ(ZU(*UINTS[i][k])).c_str());
			c.nontrivial(hashBytes(TEXTS[i], 64) + static_cast<uint64_t>(k));
			c.hit(k ? "program-constant.default-priority" : "program-constant.before-the-library");
		}
}
static RegisterSuite s1("order", orderCase);
