// The operations of the history monitor: library calls on arguments given as bytes, results as text. Needs nothing but the
// library, hexOf and strf, so that it is also compiled for 32-bit machines (ilp32/server.cpp).
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include "Base58Check.hpp"
#include "CurvePoint.hpp"
#include "Ecdsa.hpp"
#include "ExtendedPrivateKey.hpp"
#include "FieldInt.hpp"
#include "Keccak256.hpp"
#include "Ripemd160.hpp"
#include "Sha256.hpp"
#include "Sha256Hash.hpp"
#include "Sha512.hpp"
#include "Uint256.hpp"

using std::string;
typedef std::vector<Bytes> Args;

static Uint256 word256(const uint8_t *be) { Uint256 r; for (int i = 0; i < 32; i++) r.value[i / 4] = r.value[i / 4] & ~(0xFFU << 8 * (i % 4)) | static_cast<uint32_t>(be[31 - i]) << 8 * (i % 4); return r; }
static const uint8_t PRIME_BYTES[32] = {255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 254, 255, 255, 252, 47};

/*---- Where the arguments are placed ----*/
struct Slots {
	bool fixed; int used = 0; std::vector<void *> own;
	static const size_t SIZE = 4096;
	static uint8_t *pool(int i) { static uint8_t *p[16]; if (!p[i] && posix_memalign(reinterpret_cast<void **>(&p[i]), 64, SIZE)) abort(); return p[i]; }
	explicit Slots(bool f) : fixed(f) {}
	~Slots() { for (void *p : own) free(p); }
	uint8_t *raw(size_t n) {
		if (fixed && n <= SIZE && used < 16) return pool(used++);
		void *p = nullptr;
		if (posix_memalign(&p, 64, n + 1)) abort();
		own.push_back(p); return static_cast<uint8_t *>(p);
	}
	uint8_t *bytes(const Bytes &b) { uint8_t *p = raw(b.size()); if (!b.empty()) std::memcpy(p, b.data(), b.size()); return p; }
	char *text(const Bytes &b) { uint8_t *p = raw(b.size() + 1); if (!b.empty()) std::memcpy(p, b.data(), b.size()); p[b.size()] = 0; return reinterpret_cast<char *>(p); }
	template<class T> T &obj(const T &v) { return *new (raw(sizeof(T))) T(v); }   // library types need no destruction
	Uint256 &u(const Bytes &b) { return obj(word256(b.data())); }
	FieldInt &f(const Bytes &b) { return obj(FieldInt(word256(b.data()))); }
	CurvePoint &p(const Bytes &b) { CurvePoint q = CurvePoint::ZERO; q.x = f(Bytes(b.begin(), b.begin() + 32)); q.y = f(Bytes(b.begin() + 32, b.begin() + 64)); q.z = f(Bytes(b.begin() + 64, b.begin() + 96)); return obj(q); }
};
static string hexW(const uint32_t *w) { uint8_t b[32]; for (int i = 0; i < 32; i++) b[i] = static_cast<uint8_t>(w[i / 4] >> 8 * (i % 4)); return hexOf(b, 32); }   // the words from the lowest, whatever the order of bytes of the machine
static string hexU(const Uint256 &v) { return hexW(v.value); }
static string hexU(const FieldInt &v) { return hexW(v.value); }
static string hexP(const CurvePoint &p) { return hexU(p.x) + "," + hexU(p.y) + "," + hexU(p.z); }
static string hexX(const ExtendedPrivateKey &k) { return hexU(k.privateKey) + "," + hexP(k.publicKey) + "," + hexOf(k.chainCode, 32) + strf(",%u,%u,", k.depth, k.index) + hexOf(k.parentPubkeyHash, 4); }

/*---- Operations: name, kinds of arguments, execution ----*/
// s scalar in [1, n), v 256-bit value, f field value, p point, m message, k HMAC key, h 32 bytes, b one byte, a/w/x Base58 text (address, WIF, extended key), i index, c 75-byte extended key, t hexadecimal text
struct Op { const char *name, *kinds; string (*run)(const Args &a, Slots &s); };
static const Op OPS[] = {
	{"uint", "vvb", [](const Args &a, Slots &s) {
		Uint256 &x = s.u(a[0]), &y = s.u(a[1]), orig = s.u(a[0]); uint32_t e = a[2][0] & 1; string o;
		 o += std::to_string(x.add(y, e)); o += hexU(x); x = orig;
		o += ","; o += std::to_string(x.subtract(y, e)); o += hexU(x); x = orig;
		o += ","; o += std::to_string(x.shiftLeft1()); o += hexU(x); x = orig;
		x.shiftRight1(e); o += "," + hexU(x); x = orig;
		o += strf(",%d%d%d%d%d%d", x == y, x != y, x < y, x <= y, x > y, x >= y);
		x.swap(y, e); o += "," + hexU(x) + hexU(y); x.replace(orig, e ^ 1); o += "," + hexU(x); return o; }},
	{"recip", "sb", [](const Args &a, Slots &s) { Uint256 &x = s.u(a[0]); const Uint256 p = word256(PRIME_BYTES); x.reciprocal(a[1][0] & 1 ? CurvePoint::ORDER : p); return hexU(x); }},
	{"field", "ff", [](const Args &a, Slots &s) {
		FieldInt &x = s.f(a[0]), &y = s.f(a[1]), orig = s.f(a[0]); string o;
		x.multiply(y); o = hexU(x); x.square(); o += "," + hexU(x); x = orig; x.add(y); o += "," + hexU(x); x = orig; x.subtract(y); o += "," + hexU(x); x.multiply2(); o += "," + hexU(x);
		return o + strf(",%d%d", orig == y, orig < y); }},
	{"fieldinv", "f", [](const Args &a, Slots &s) { FieldInt &x = s.f(a[0]); x.reciprocal(); return hexU(x); }},
	{"padd", "pp", [](const Args &a, Slots &s) { CurvePoint &p = s.p(a[0]), &q = s.p(a[1]); p.add(q); string o = hexP(p); p.normalize(); return o + "," + hexP(p); }},
	{"ptwice", "p", [](const Args &a, Slots &s) { CurvePoint &p = s.p(a[0]); p.twice(); string o = hexP(p); p.normalize(); return o + "," + hexP(p) + strf(",%d%d", p.isZero(), p.isOnCurve()); }},
	{"pmul", "pv", [](const Args &a, Slots &s) { CurvePoint &p = s.p(a[0]); p.multiply(s.u(a[1])); p.normalize(); uint8_t *o = s.raw(33); p.toCompressedPoint(o); return hexP(p) + "," + hexOf(o, 33); }},
	{"pubkey", "s", [](const Args &a, Slots &s) { return hexP(CurvePoint::privateExponentToPublicPoint(s.u(a[0]))); }},
	{"sign", "shs", [](const Args &a, Slots &s) { Uint256 &r = s.obj(Uint256::ZERO), &t = s.obj(Uint256::ZERO); Sha256Hash &h = s.obj(Sha256Hash(a[1].data(), 32)); bool ok = Ecdsa::sign(s.u(a[0]), h, s.u(a[2]), r, t); return strf("%d,", ok) + hexU(r) + hexU(t); }},
	{"hmacsign", "sh", [](const Args &a, Slots &s) { Uint256 &r = s.obj(Uint256::ZERO), &t = s.obj(Uint256::ZERO); Sha256Hash &h = s.obj(Sha256Hash(a[1].data(), 32)); bool ok = Ecdsa::signWithHmacNonce(s.u(a[0]), h, r, t); return strf("%d,", ok) + hexU(r) + hexU(t); }},
	{"verify", "sshb", [](const Args &a, Slots &s) {   // a signature by the second key, checked with the first key's public key (often the same)
		Uint256 &r = s.obj(Uint256::ZERO), &t = s.obj(Uint256::ZERO); Sha256Hash &h = s.obj(Sha256Hash(a[2].data(), 32));
		bool ok = Ecdsa::signWithHmacNonce(s.u(a[1]), h, r, t);
		CurvePoint &q = s.obj(CurvePoint::privateExponentToPublicPoint(s.u(a[0])));
		switch (a[3][0] & 7) { case 0: r.value[3] ^= 16; break; case 1: t.value[7] ^= 1; break; case 2: h.value[a[3][0] >> 3] ^= 1; break; case 3: q.y = q.x; break; }
		return strf("%d%d", ok, Ecdsa::verify(q, h, r, t)); }},
	{"sha256", "m", [](const Args &a, Slots &s) { Sha256Hash &h = s.obj(Sha256::getHash(s.bytes(a[0]), a[0].size())); return hexOf(h.value, 32); }},
	{"sha256d", "m", [](const Args &a, Slots &s) { Sha256Hash &h = s.obj(Sha256::getDoubleHash(s.bytes(a[0]), a[0].size())); return hexOf(h.value, 32); }},
	{"sha256s", "mb", [](const Args &a, Slots &s) {
		Sha256 &dropped = s.obj(Sha256()), &h = s.obj(Sha256()); uint8_t *m = s.bytes(a[0]); size_t n = std::min<size_t>(a[0].size(), a[1][0]);
		dropped.append(m, n / 2); h.append(m, n); dropped.append(m, a[0].size()); h.append(m + n, a[0].size() - n); return hexOf(h.getHash().value, 32); }},
	{"hmac256", "km", [](const Args &a, Slots &s) { return hexOf(Sha256::getHmac(s.bytes(a[0]), a[0].size(), s.bytes(a[1]), a[1].size()).value, 32); }},
	{"sha512", "m", [](const Args &a, Slots &s) { uint8_t *o = s.raw(64); Sha512::getHash(s.bytes(a[0]), a[0].size(), o); return hexOf(o, 64); }},
	{"sha512s", "mb", [](const Args &a, Slots &s) {
		Sha512 &dropped = s.obj(Sha512()), &h = s.obj(Sha512()); uint8_t *m = s.bytes(a[0]), *o = s.raw(64); size_t n = std::min<size_t>(a[0].size(), a[1][0]);
		dropped.append(m, n / 2); h.append(m, n); dropped.append(m, a[0].size()); h.append(m + n, a[0].size() - n); h.getHash(o); return hexOf(o, 64); }},
	{"hmac512", "km", [](const Args &a, Slots &s) { uint8_t *o = s.raw(64); Sha512::getHmac(s.bytes(a[0]), a[0].size(), s.bytes(a[1]), a[1].size(), o); return hexOf(o, 64); }},
	{"ripemd160", "m", [](const Args &a, Slots &s) { uint8_t *o = s.raw(20); Ripemd160::getHash(s.bytes(a[0]), a[0].size(), o); return hexOf(o, 20); }},
	{"keccak256", "m", [](const Args &a, Slots &s) { uint8_t *o = s.raw(32); Keccak256::getHash(s.bytes(a[0]), a[0].size(), o); return hexOf(o, 32); }},
	{"hashtext", "tt", [](const Args &a, Slots &s) { Sha256Hash &x = s.obj(Sha256Hash(s.text(a[0]))), &y = s.obj(Sha256Hash(s.text(a[1]))); return hexOf(x.value, 32) + hexOf(y.value, 32) + strf("%d%d", x == y, x != y) + "," + hexU(Uint256(s.text(a[0]))); }},
	{"address", "hb", [](const Args &a, Slots &s) { char *o = reinterpret_cast<char *>(s.raw(36)); Base58Check::pubkeyHashToBase58Check(s.bytes(a[0]), a[1][0], o); return string(o); }},
	{"wif", "vbb", [](const Args &a, Slots &s) { char *o = reinterpret_cast<char *>(s.raw(53)); Base58Check::privateKeyToBase58Check(s.u(a[0]), a[1][0], a[2][0] & 1, o); return string(o); }},
	{"xprv", "shbi", [](const Args &a, Slots &s) {
		char *o = reinterpret_cast<char *>(s.raw(112)); const Bytes &i = a[3]; uint32_t n = static_cast<uint32_t>(i[0]) << 24 | i[1] << 16 | i[2] << 8 | i[3];
		ExtendedPrivateKey &k = s.obj(ExtendedPrivateKey(s.u(a[0]), s.bytes(a[1]), a[2][0], n, s.bytes(i))); Base58Check::extendedPrivateKeyToBase58Check(k, o); return string(o); }},
	{"address-in", "a", [](const Args &a, Slots &s) { uint8_t *o = s.raw(20); std::memset(o, 0x5A, 20); uint8_t &v = s.obj<uint8_t>(0xEE); bool ok = Base58Check::pubkeyHashFromBase58Check(s.text(a[0]), o, &v); return strf("%d,%u,", ok, v) + hexOf(o, 20); }},
	{"wif-in", "w", [](const Args &a, Slots &s) { Uint256 &k = s.obj(Uint256::ONE); uint8_t &v = s.obj<uint8_t>(0xEE); bool &z = s.obj(true); bool ok = Base58Check::privateKeyFromBase58Check(s.text(a[0]), k, &v, &z); return strf("%d,%u,%d,", ok, v, z) + hexU(k); }},
	{"xprv-in", "x", [](const Args &a, Slots &s) { ExtendedPrivateKey &k = s.obj(ExtendedPrivateKey()); bool ok = Base58Check::extendedPrivateKeyFromBase58Check(s.text(a[0]), k); return strf("%d,", ok) + hexX(k); }},
	{"child", "shbi", [](const Args &a, Slots &s) {
		const Bytes &i = a[3]; uint32_t n = static_cast<uint32_t>(i[0]) << 24 | i[1] << 16 | i[2] << 8 | i[3]; static const uint8_t z[4] = {1, 2, 3, 4};
		ExtendedPrivateKey &k = s.obj(ExtendedPrivateKey(s.u(a[0]), s.bytes(a[1]), a[2][0] % 255, 7, z)); ExtendedPrivateKey &d = s.obj(k.getChildKey(n)); return hexX(d) + "," + hexX(k); }},
	{"constants", "", [](const Args &, Slots &) { return hexU(Uint256::ZERO) + hexU(Uint256::ONE) + hexU(CurvePoint::ORDER) + hexU(CurvePoint::A) + hexU(CurvePoint::B) + hexP(CurvePoint::G) + hexP(CurvePoint::ZERO) + Base58Check::ALPHABET; }},
};
static const int NOPS = sizeof(OPS) / sizeof(OPS[0]);

