#include "common.hpp"
#include <cstdarg>
#include <fstream>
#include <set>
#include <openssl/sha.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>

thread_local long long opsCounted;
void countOps(long n);
void countOps(long n) { opsCounted += n; }   // called by the library in operation-counting builds only


std::vector<Suite> &suites() { static std::vector<Suite> v; return v; }

std::string strf(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	va_list ap2; va_copy(ap2, ap);
	int n = vsnprintf(nullptr, 0, fmt, ap);
	std::string s(n, '\0');
	vsnprintf(&s[0], n + 1, fmt, ap2);
	va_end(ap); va_end(ap2);
	return s;
}
std::string hexOf(const void *p, size_t n) {
	static const char *d = "0123456789abcdef";
	std::string s;
	for (size_t i = 0; i < n; i++) { uint8_t b = static_cast<const uint8_t *>(p)[i]; s += d[b >> 4]; s += d[b & 15]; }
	return s;
}

/*---- Big integers ----*/
static mpz_class Z(const char *h) { return mpz_class(h, 16); }
const mpz_class Curve::P = Z("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F");
const mpz_class Curve::N = Z("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141");
const mpz_class Curve::GX = Z("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798");
const mpz_class Curve::GY = Z("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8");
const mpz_class Curve::BETA = Z("7AE96A2B657C07106E64479EAC3434E99CF0497512F58995C1396C28719501EE");
const mpz_class Curve::LAMBDA = Z("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72");
const mpz_class Curve::TWO256 = mpz_class(1) << 256;

mpz_class fromWords(const uint32_t *w, int n) { mpz_class z; mpz_import(z.get_mpz_t(), n, -1, 4, 0, 0, w); return z; }
void toWords(const mpz_class &v, uint32_t *w, int n) {
	std::memset(w, 0, n * 4);
	mpz_class t = v;
	if (mpz_sizeinbase(t.get_mpz_t(), 2) > static_cast<size_t>(n) * 32 || sgn(t) < 0) { fprintf(stderr, "HARNESS: toWords range\n"); std::_Exit(70); }
	size_t cnt = 0;
	mpz_export(w, &cnt, -1, 4, 0, 0, t.get_mpz_t());
}
mpz_class fromBE(const uint8_t *b, size_t n) { mpz_class z; mpz_import(z.get_mpz_t(), n, 1, 1, 0, 0, b); return z; }
Bytes toBE(const mpz_class &v, size_t n) {
	Bytes out(n, 0);
	size_t len = sgn(v) == 0 ? 0 : (mpz_sizeinbase(v.get_mpz_t(), 2) + 7) / 8;
	if (len > n) { fprintf(stderr, "HARNESS: toBE range\n"); std::_Exit(70); }
	size_t cnt = 0;
	if (len) mpz_export(&out[n - len], &cnt, 1, 1, 0, 0, v.get_mpz_t());
	return out;
}
std::string hexZ(const mpz_class &v, int digits) {
	std::string s = v.get_str(16);
	if (static_cast<int>(s.size()) < digits) s = std::string(digits - s.size(), '0') + s;
	return s;
}
mpz_class modZ(const mpz_class &a, const mpz_class &m) { mpz_class r; mpz_mod(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
mpz_class invZ(const mpz_class &a, const mpz_class &m) {
	mpz_class r;
	if (mpz_invert(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()) == 0) return 0;
	return r;
}

static std::vector<uint32_t> dictWords;
void extraDictionary(const char *path) {
	std::ifstream f(path);
	std::string s;
	while (f >> s) dictWords.push_back(static_cast<uint32_t>(std::strtoull(s.c_str(), nullptr, 16)));
}

static uint32_t edgeWord(Rng &r) {
	switch (r.below(dictWords.empty() ? 12 : 14)) {
		case 0: case 1: case 2: return 0;
		case 3: case 4: case 5: return 0xFFFFFFFF;
		case 6: return 1;
		case 7: return 0xFFFFFFFE;
		case 8: return 0x80000000;
		case 9: return 0x7FFFFFFF;
		case 12: case 13: return dictWords[r.below(dictWords.size())] + static_cast<uint32_t>(r.below(8) == 0 ? r.below(3) - 1 : 0);
		default: return r.u32();
	}
}

static mpz_class rand256(Rng &r) { uint32_t w[8]; for (auto &x : w) x = r.u32(); return fromWords(w); }
static mpz_class smallDelta(Rng &r) {
	switch (r.below(4)) {
		case 0: return static_cast<long>(r.below(3));
		case 1: return static_cast<long>(r.below(0x400));
		case 2: return mpz_class(static_cast<unsigned long>(r.u32()));
		default: return mpz_class(static_cast<unsigned long>(r.next())) >> r.below(64);
	}
}
static mpz_class wrap256(const mpz_class &v) { return modZ(v, Curve::TWO256); }

mpz_class gen256(Rng &r) {
	static const std::vector<mpz_class> anchors = {
		0, 1, Curve::P, Curve::N, Curve::GX, Curve::GY, (Curve::N - 1) / 2, (Curve::P - 1) / 2, Curve::TWO256 - 1,
		Curve::TWO256 - Curve::P, Curve::TWO256 - Curve::N, Curve::P - Curve::N, Curve::BETA, Curve::LAMBDA, Curve::TWO256 / 2,
		Curve::TWO256 / 2 - 1, Curve::N / 3, Curve::P / 3,
	};
	switch (r.below(12)) {
		case 0: case 1: return rand256(r);
		case 2: case 3: { uint32_t w[8]; for (auto &x : w) x = edgeWord(r); return fromWords(w); }
		case 4: {  // 64-bit granularity edges
			uint32_t w[8];
			for (int i = 0; i < 8; i += 2) { switch (r.below(5)) {
				case 0: w[i] = w[i + 1] = 0; break;
				case 1: w[i] = w[i + 1] = 0xFFFFFFFF; break;
				case 2: w[i] = 1; w[i + 1] = 0; break;
				case 3: w[i] = 0xFFFFFFFE; w[i + 1] = 0xFFFFFFFF; break;
				default: w[i] = r.u32(); w[i + 1] = r.u32(); } }
			return fromWords(w);
		}
		case 5: case 6: {  // near an anchor
			mpz_class a = anchors[r.below(anchors.size())], d = smallDelta(r);
			return wrap256(r.chance(1, 2) ? mpz_class(a + d) : mpz_class(a - d));
		}
		case 7: {  // a run of ones
			unsigned lo = r.below(257), hi = r.below(257);
			if (lo > hi) std::swap(lo, hi);
			mpz_class v = (mpz_class(1) << hi) - (mpz_class(1) << lo);
			return r.chance(1, 3) ? wrap256(v + smallDelta(r)) : wrap256(v);
		}
		case 8: {  // sparse bits
			mpz_class v = 0;
			for (unsigned n = 1 + r.below(4); n > 0; n--) v |= mpz_class(1) << r.below(256);
			return r.chance(1, 2) ? v : wrap256(Curve::TWO256 - 1 - v);
		}
		case 9: return rand256(r) >> r.below(256);
		case 10: {  // repeated nibble / byte / word patterns (windowed multiplication digits)
			uint32_t w[8]; uint32_t pat;
			switch (r.below(3)) { case 0: pat = 0x11111111u * static_cast<uint32_t>(r.below(16)); break; case 1: pat = 0x01010101u * static_cast<uint32_t>(r.below(256)); break; default: pat = r.u32(); }
			for (auto &x : w) x = pat;
			mpz_class v = fromWords(w);
			if (r.chance(1, 2)) { unsigned sh = 4 * r.below(64); v = r.chance(1, 2) ? mpz_class(v >> sh) : wrap256(v << sh); }
			return v;
		}
		default: return smallDelta(r);
	}
}

mpz_class genBelow(Rng &r, const mpz_class &m) {
	switch (r.below(6)) {
		case 0: { mpz_class d = smallDelta(r); return modZ(r.chance(1, 2) ? d : mpz_class(m - 1 - d), m); }
		case 1: { mpz_class d = smallDelta(r); return modZ(r.chance(1, 2) ? mpz_class(m / 2 + d) : mpz_class(m / 2 - d), m); }
		default: { mpz_class v = gen256(r); return v < m ? v : modZ(v, m); }
	}
}

mpz_class genRelated(Rng &r, const mpz_class &a) {
	switch (r.below(16)) {
		case 0: return a;
		case 1: return wrap256(a + 1);
		case 2: return wrap256(a - 1);
		case 3: return wrap256(-a);
		case 4: return wrap256(Curve::TWO256 - 1 - a);
		case 5: { mpz_class v = a; mpz_combit(v.get_mpz_t(), r.below(256)); return v; }
		case 6: { uint32_t w[8]; toWords(a, w); w[r.below(8)] = edgeWord(r); return fromWords(w); }
		case 7: return wrap256(Curve::P - a);
		case 8: return wrap256(Curve::N - a);
		case 9: { mpz_class d = smallDelta(r); return wrap256(r.chance(1, 2) ? mpz_class(a + d) : mpz_class(Curve::TWO256 - a + d)); }
		default: return gen256(r);
	}
}

/*---- Elliptic curve oracle ----*/
Pt ptG() { return Pt(Curve::GX, Curve::GY); }
Pt ptNeg(const Pt &a) { return a.inf ? a : Pt(a.x, modZ(-a.y, Curve::P)); }
Pt ptAdd(const Pt &a, const Pt &b) {
	if (a.inf) return b;
	if (b.inf) return a;
	const mpz_class &p = Curve::P;
	mpz_class l;
	if (a.x == b.x) {
		if (a.y != b.y || a.y == 0) return Pt();
		l = modZ(3 * a.x * a.x * invZ(2 * a.y, p), p);
	} else
		l = modZ((b.y - a.y) * invZ(modZ(b.x - a.x, p), p), p);
	mpz_class x = modZ(l * l - a.x - b.x, p);
	return Pt(x, modZ(l * (a.x - x) - a.y, p));
}
// Jacobian double-and-add (a different coordinate system from the code under test).
namespace { struct Jac { mpz_class X, Y, Z; }; }
static void jdbl(Jac &j) {
	const mpz_class &p = Curve::P;
	if (sgn(j.Z) == 0) return;
	mpz_class a = modZ(j.X * j.X, p), b = modZ(j.Y * j.Y, p), c = modZ(b * b, p);
	mpz_class d = modZ(2 * ((j.X + b) * (j.X + b) - a - c), p), e = 3 * a, f = modZ(e * e, p);
	mpz_class x3 = modZ(f - 2 * d, p);
	mpz_class z3 = modZ(2 * j.Y * j.Z, p);
	j.Y = modZ(e * (d - x3) - 8 * c, p);
	j.X = x3; j.Z = z3;
}
static void jaddAffine(Jac &j, const Pt &q) {
	const mpz_class &p = Curve::P;
	if (sgn(j.Z) == 0) { j.X = q.x; j.Y = q.y; j.Z = 1; return; }
	mpz_class z2 = modZ(j.Z * j.Z, p), u2 = modZ(q.x * z2, p), s2 = modZ(q.y * z2 * j.Z, p);
	mpz_class h = modZ(u2 - j.X, p), rr = modZ(s2 - j.Y, p);
	if (h == 0) {
		if (rr == 0) { jdbl(j); return; }
		j.Z = 0; j.X = 1; j.Y = 1; return;
	}
	mpz_class h2 = modZ(h * h, p), h3 = modZ(h2 * h, p), v = modZ(j.X * h2, p);
	mpz_class x3 = modZ(rr * rr - h3 - 2 * v, p);
	j.Y = modZ(rr * (v - x3) - j.Y * h3, p);
	j.X = x3;
	j.Z = modZ(j.Z * h, p);
}
Pt ptMul(const Pt &a, const mpz_class &k0) {
	if (a.inf) return a;
	mpz_class k = modZ(k0, Curve::N);
	Jac j; j.X = 1; j.Y = 1; j.Z = 0;
	for (long i = sgn(k) == 0 ? -1 : static_cast<long>(mpz_sizeinbase(k.get_mpz_t(), 2)) - 1; i >= 0; i--) {
		jdbl(j);
		if (mpz_tstbit(k.get_mpz_t(), i)) jaddAffine(j, a);
	}
	if (sgn(j.Z) == 0) return Pt();
	mpz_class zi = invZ(j.Z, Curve::P), zi2 = modZ(zi * zi, Curve::P);
	return Pt(modZ(j.X * zi2, Curve::P), modZ(j.Y * zi2 * zi, Curve::P));
}
bool liftX(const mpz_class &x, bool odd, Pt &out) {
	if (x >= Curve::P) return false;
	mpz_class c = modZ(x * x * x + 7, Curve::P), y, e = (Curve::P + 1) / 4;
	mpz_powm(y.get_mpz_t(), c.get_mpz_t(), e.get_mpz_t(), Curve::P.get_mpz_t());
	if (modZ(y * y, Curve::P) != c) return false;
	if ((mpz_tstbit(y.get_mpz_t(), 0) != 0) != odd) y = modZ(-y, Curve::P);
	out = Pt(x, y);
	return true;
}

/*---- Hash oracles ----*/
Bytes refSha256(const uint8_t *m, size_t n) { Bytes o(32); SHA256(m, n, o.data()); return o; }
Bytes refSha512(const uint8_t *m, size_t n) { Bytes o(64); SHA512(m, n, o.data()); return o; }
static Bytes hmacRef(Bytes (*h)(const uint8_t *, size_t), size_t block, Bytes k, const Bytes &m) {
	if (k.size() > block) k = h(k.data(), k.size());
	k.resize(block, 0);
	Bytes in = k;
	for (auto &b : in) b ^= 0x36;
	in.insert(in.end(), m.begin(), m.end());
	Bytes ih = h(in.data(), in.size());
	Bytes out = k;
	for (auto &b : out) b ^= 0x5C;
	out.insert(out.end(), ih.begin(), ih.end());
	return h(out.data(), out.size());
}
Bytes refHmac256(const Bytes &k, const Bytes &m) { return hmacRef(refSha256, 64, k, m); }
Bytes refHmac512(const Bytes &k, const Bytes &m) { return hmacRef(refSha512, 128, k, m); }

static uint32_t rr32(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
void refSha256Compress(uint32_t st[8], const uint8_t b[64]) {
	// Round constants derived from the cube roots of the first 64 primes.
	static std::vector<uint32_t> K = [] {
		std::vector<uint32_t> v;
		for (int p = 2; v.size() < 64; p++) {
			bool prime = true;
			for (int q = 2; q * q <= p; q++) if (p % q == 0) prime = false;
			if (!prime) continue;
			mpz_class t = mpz_class(p) << 96, root;   // floor(cbrt(p) * 2^32)
			mpz_root(root.get_mpz_t(), t.get_mpz_t(), 3);
			mpz_class low = root & mpz_class(0xFFFFFFFFUL);
			v.push_back(static_cast<uint32_t>(low.get_ui()));
		}
		return v;
	}();
	uint32_t w[64];
	for (int i = 0; i < 16; i++) w[i] = uint32_t(b[4 * i]) << 24 | uint32_t(b[4 * i + 1]) << 16 | uint32_t(b[4 * i + 2]) << 8 | b[4 * i + 3];
	for (int i = 16; i < 64; i++) {
		uint32_t s0 = rr32(w[i - 15], 7) ^ rr32(w[i - 15], 18) ^ (w[i - 15] >> 3), s1 = rr32(w[i - 2], 17) ^ rr32(w[i - 2], 19) ^ (w[i - 2] >> 10);
		w[i] = w[i - 16] + s0 + w[i - 7] + s1;
	}
	uint32_t v[8]; std::memcpy(v, st, 32);
	for (int i = 0; i < 64; i++) {
		uint32_t ch = (v[4] & v[5]) ^ (~v[4] & v[6]), maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
		uint32_t t1 = v[7] + (rr32(v[4], 6) ^ rr32(v[4], 11) ^ rr32(v[4], 25)) + ch + K[i] + w[i];
		uint32_t t2 = (rr32(v[0], 2) ^ rr32(v[0], 13) ^ rr32(v[0], 22)) + maj;
		for (int j = 7; j > 0; j--) v[j] = v[j - 1];
		v[4] += t1; v[0] = t1 + t2;
	}
	for (int i = 0; i < 8; i++) st[i] += v[i];
}

#pragma GCC push_options
#pragma GCC optimize("O3")
static uint32_t rl32(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
Bytes refRipemd160(const uint8_t *msg, size_t n) {
	// Written from the specification's permutation description: rho and pi, r(j) = rho^k, r'(j) = rho^k(pi).
	static const int rho[16] = {7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8};
	static const int shifts[5][16] = {
		{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8}, {12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7},
		{13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9}, {14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6},
		{15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5}};
	static const uint32_t k1[5] = {0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E}, k2[5] = {0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0};
	auto F = [](int j, uint32_t x, uint32_t y, uint32_t z) -> uint32_t {
		switch (j) { case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z; case 3: return (x & z) | (y & ~z); default: return x ^ (y | ~z); } };
	uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
	auto block = [&](const uint8_t *b) {
		uint32_t X[16];
		for (int i = 0; i < 16; i++) X[i] = uint32_t(b[4 * i]) | uint32_t(b[4 * i + 1]) << 8 | uint32_t(b[4 * i + 2]) << 16 | uint32_t(b[4 * i + 3]) << 24;
		uint32_t A[5], B[5]; std::memcpy(A, h, 20); std::memcpy(B, h, 20);
		int l[16], r[16];
		for (int i = 0; i < 16; i++) { l[i] = i; r[i] = (9 * i + 5) % 16; }
		for (int rd = 0; rd < 5; rd++) {
			for (int i = 0; i < 16; i++) {
				uint32_t t = rl32(A[0] + F(rd, A[1], A[2], A[3]) + X[l[i]] + k1[rd], shifts[rd][l[i]]) + A[4];
				A[0] = A[4]; A[4] = A[3]; A[3] = rl32(A[2], 10); A[2] = A[1]; A[1] = t;
				t = rl32(B[0] + F(4 - rd, B[1], B[2], B[3]) + X[r[i]] + k2[rd], shifts[rd][r[i]]) + B[4];
				B[0] = B[4]; B[4] = B[3]; B[3] = rl32(B[2], 10); B[2] = B[1]; B[1] = t;
			}
			for (int i = 0; i < 16; i++) { l[i] = rho[l[i]]; r[i] = rho[r[i]]; }
		}
		uint32_t t = h[1] + A[2] + B[3];
		h[1] = h[2] + A[3] + B[4]; h[2] = h[3] + A[4] + B[0]; h[3] = h[4] + A[0] + B[1]; h[4] = h[0] + A[1] + B[2]; h[0] = t;
	};
	size_t off = 0;
	for (; n - off >= 64; off += 64) block(msg + off);
	uint8_t tail[128] = {};
	size_t rem = n - off;
	if (rem) std::memcpy(tail, msg + off, rem);
	tail[rem] = 0x80;
	size_t tot = rem + 9 <= 64 ? 64 : 128;
	uint64_t bits = static_cast<uint64_t>(n) * 8;
	for (int i = 0; i < 8; i++) tail[tot - 8 + i] = static_cast<uint8_t>(bits >> (8 * i));
	for (size_t i = 0; i < tot; i += 64) block(tail + i);
	Bytes out(20);
	for (int i = 0; i < 20; i++) out[i] = static_cast<uint8_t>(h[i / 4] >> (8 * (i % 4)));
	return out;
}

Bytes refKeccak256(const uint8_t *m, size_t n) {
	// Bit-level derivation of rotation offsets and round constants (LFSR), as in the Keccak reference.
	uint64_t A[25] = {};
	struct Tab { uint64_t RC[24]; int rot[25]; };
	static const Tab tab = [] {
		Tab t_; uint64_t *RC = t_.RC; int *rot = t_.rot;
		uint8_t lfsr = 1;
		for (int r = 0; r < 24; r++) {
			RC[r] = 0;
			for (int j = 0; j < 7; j++) {
				if (lfsr & 1) RC[r] ^= 1ULL << ((1 << j) - 1);
				lfsr = static_cast<uint8_t>((lfsr << 1) ^ ((lfsr >> 7) * 0x71));
			}
		}
		int x = 1, y = 0;
		rot[0] = 0;
		for (int t = 0; t < 24; t++) { rot[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; int ny = (2 * x + 3 * y) % 5; x = y; y = ny; }
		return t_;
	}();
	const uint64_t *RC = tab.RC; const int *rot = tab.rot;
	auto rl = [](uint64_t v, int s) { return s == 0 ? v : (v << s) | (v >> (64 - s)); };
	auto perm = [&] {
		for (int r = 0; r < 24; r++) {
			uint64_t C[5], D[5], B[25];
			for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
			for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rl(C[(x + 1) % 5], 1);
			for (int i = 0; i < 25; i++) A[i] ^= D[i % 5];
			for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) B[y + 5 * ((2 * x + 3 * y) % 5)] = rl(A[x + 5 * y], rot[x + 5 * y]);
			for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x + 5 * y] = B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & B[(x + 2) % 5 + 5 * y]);
			A[0] ^= RC[r];
		}
	};
	const size_t rate = 136;
	size_t off = 0;
	for (; n - off >= rate; off += rate) {
		for (size_t i = 0; i < rate / 8; i++) { uint64_t w; std::memcpy(&w, m + off + 8 * i, 8); A[i] ^= w; }
		perm();
	}
	uint8_t last[136] = {};
	if (n - off) std::memcpy(last, m + off, n - off);
	last[n - off] ^= 0x01; last[135] ^= 0x80;
	for (size_t i = 0; i < rate / 8; i++) { uint64_t w; std::memcpy(&w, last + 8 * i, 8); A[i] ^= w; }
	perm();
	Bytes out(32); std::memcpy(out.data(), A, 32);
	return out;
}

#pragma GCC pop_options

static const char B58[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
std::string refBase58(const Bytes &b) {
	mpz_class v = b.empty() ? mpz_class(0) : fromBE(b.data(), b.size());
	std::string s;
	while (sgn(v) > 0) { s += B58[mpz_fdiv_q_ui(v.get_mpz_t(), v.get_mpz_t(), 58)]; }
	for (size_t i = 0; i < b.size() && b[i] == 0; i++) s += '1';
	std::reverse(s.begin(), s.end());
	return s;
}
std::string refBase58Check(Bytes b) {
	Bytes h = refSha256(b.data(), b.size());
	h = refSha256(h.data(), 32);
	b.insert(b.end(), h.begin(), h.begin() + 4);
	return refBase58(b);
}
bool refBase58Decode(const std::string &s, Bytes &out) {
	mpz_class v = 0;
	for (char ch : s) {
		const char *p = ch == 0 ? nullptr : std::strchr(B58, ch);
		if (!p) return false;
		v = v * 58 + static_cast<long>(p - B58);
	}
	size_t z = 0;
	while (z < s.size() && s[z] == '1') z++;
	size_t len = sgn(v) == 0 ? 0 : (mpz_sizeinbase(v.get_mpz_t(), 2) + 7) / 8;
	out = toBE(v, len);
	out.insert(out.begin(), z, 0);
	return true;
}
