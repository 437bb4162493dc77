// Shared framework of the C++ monitors: case-indexed deterministic generation, an in-process
// oracle (GMP / OpenSSL / own reference code), a crash journal, and measured coverage counters.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_set>
#include <vector>
#include <gmpxx.h>

typedef std::vector<uint8_t> Bytes;

struct Rng {
	uint64_t s[4];
	static uint64_t mix(uint64_t &x) {
		uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}
	explicit Rng(uint64_t seed, uint64_t stream = 0, uint64_t idx = 0) {
		uint64_t x = seed * 0xD1342543DE82EF95ULL + 1;
		x ^= mix(stream);
		x += idx * 0xA0761D6478BD642FULL;
		for (auto &w : s) w = mix(x);
	}
	static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
	uint64_t next() {
		uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
		s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
		return r;
	}
	uint32_t u32() { return static_cast<uint32_t>(next() >> 32); }
	uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	Bytes bytes(size_t n) { Bytes b(n); for (auto &x : b) x = static_cast<uint8_t>(next() >> 40); return b; }
};

// Thrown by Ctx::fail to abandon a case.
struct Violation { std::string msg; };

struct Ctx {
	std::string suite, config;
	uint64_t seed = 1, idx = 0;
	Rng rng{0};
	std::map<std::string, uint64_t> counts;      // named events actually observed
	std::unordered_set<uint64_t> distinct;       // hashes of distinct non-trivial cases
	uint64_t evaluations = 0;                     // oracle comparisons made
	uint64_t cases = 0;
	std::vector<std::string> samples;
	std::vector<std::pair<uint64_t, std::string>> violations;
	std::map<std::string, std::string> digests;  // for cross-implementation comparison
	bool digestMode = false;
	uint64_t digest = 1469598103934665603ULL;
	bool muted = false;                           // the rest of this case stays out of the digest: whether an intercepted call was reached depends on inlining
	bool thorough = false;
	bool quiet = false;                           // do not write the shared journal (worker threads)
	std::string describe;                         // human-readable description of the current case

	void hit(const char *name, uint64_t n = 1) { counts[name] += n; }
	void hit(const std::string &name, uint64_t n = 1) { counts[name] += n; }
	void nontrivial(uint64_t h) { if (distinct.size() < 4000000) distinct.insert(h); }
	void note(const std::string &d);              // also goes to the crash journal
	[[noreturn]] void fail(const std::string &msg) { throw Violation{msg}; }
	void eval(uint64_t n = 1) { evaluations += n; }
	void observe(const void *p, size_t n) {       // feeds the output digest
		const uint8_t *b = static_cast<const uint8_t *>(p);
		for (size_t i = 0; i < n && !muted; i++) digest = (digest ^ b[i]) * 1099511628211ULL;
	}
};

#define CHECK(c, cond, ...) do { (c).eval(); bool ok_ = (cond); if (!(c).muted) (c).digest = ((c).digest ^ ok_) * 1099511628211ULL; if (!ok_) (c).fail(strf(__VA_ARGS__)); } while (0)

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hexOf(const void *p, size_t n);
inline std::string hexOf(const Bytes &b) { return hexOf(b.data(), b.size()); }
inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
	const uint8_t *b = static_cast<const uint8_t *>(p);
	for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL;
	return h ^ (h >> 29);
}

struct Suite {
	const char *name;
	void (*runCase)(Ctx &c);            // one case; everything derives from c.rng / c.idx
	void (*begin)(Ctx &c);              // optional
};
std::vector<Suite> &suites();
struct RegisterSuite { RegisterSuite(const char *n, void (*f)(Ctx &), void (*b)(Ctx &) = nullptr) { suites().push_back(Suite{n, f, b}); } };

/*---- Big integers and value generation ----*/

struct Curve {
	static const mpz_class P, N, GX, GY, BETA, LAMBDA, TWO256;
};
mpz_class fromWords(const uint32_t *w, int n = 8);
void toWords(const mpz_class &v, uint32_t *w, int n = 8);
mpz_class fromBE(const uint8_t *b, size_t n);
Bytes toBE(const mpz_class &v, size_t n);
std::string hexZ(const mpz_class &v, int digits = 64);
mpz_class modZ(const mpz_class &a, const mpz_class &m);
mpz_class invZ(const mpz_class &a, const mpz_class &m);   // 0 if not invertible
mpz_class gen256(Rng &r);                                  // biased value in [0, 2^256)
mpz_class genBelow(Rng &r, const mpz_class &m);            // biased value in [0, m)
mpz_class genRelated(Rng &r, const mpz_class &a);          // biased value related to a, in [0, 2^256)
void extraDictionary(const char *path);                    // loads 32-bit constants harvested from the code under test

/*---- Affine elliptic curve oracle ----*/

struct Pt {
	bool inf = true;
	mpz_class x, y;
	Pt() {}
	Pt(const mpz_class &x_, const mpz_class &y_) : inf(false), x(x_), y(y_) {}
	bool operator==(const Pt &o) const { return inf ? o.inf : (!o.inf && x == o.x && y == o.y); }
	bool onCurve() const { return !inf && modZ(y * y - x * x * x - 7, Curve::P) == 0; }
};
Pt ptG();
Pt ptAdd(const Pt &a, const Pt &b);
Pt ptNeg(const Pt &a);
Pt ptMul(const Pt &a, const mpz_class &k);
bool liftX(const mpz_class &x, bool odd, Pt &out);

/*---- Hash oracles (independent implementations) ----*/
Bytes refSha256(const uint8_t *m, size_t n);
Bytes refSha512(const uint8_t *m, size_t n);
Bytes refHmac256(const Bytes &k, const Bytes &m);
Bytes refHmac512(const Bytes &k, const Bytes &m);
Bytes refRipemd160(const uint8_t *m, size_t n);
Bytes refKeccak256(const uint8_t *m, size_t n);
void refSha256Compress(uint32_t st[8], const uint8_t block[64]);
std::string refBase58(const Bytes &payload);               // raw, no checksum
std::string refBase58Check(Bytes payload);
bool refBase58Decode(const std::string &s, Bytes &out);    // canonical decoding; false if bad characters

/*---- Placement: objects at every alignment the type allows, ending flush with the heap block ----*/
template<class T> struct Placed {
	void *block; T *p;
	template<class... A> Placed(Rng &r, A &&... a) {
		size_t off = alignof(T) * r.below(16 / alignof(T) + 1);
		block = std::malloc(off + sizeof(T));
		p = new (static_cast<char *>(block) + off) T(std::forward<A>(a)...);
	}
	Placed(const Placed &) = delete;
	~Placed() { p->~T(); std::free(block); }
	T &operator*() const { return *p; }
	T *operator->() const { return p; }
};

// A heap buffer of exactly n bytes (sanitizer red zones directly after it) with an odd-offset option.
struct Exact {
	void *block; uint8_t *p; size_t n;
	Exact(Rng &r, size_t n_, uint8_t fill = 0xA5) : n(n_) {
		size_t off = r.below(8);
		block = std::malloc(off + n + (off + n == 0));
		p = static_cast<uint8_t *>(block) + off;
		if (n) std::memset(p, fill, n);
	}
	Exact(Rng &r, const Bytes &b) : Exact(r, b.size()) { if (n) std::memcpy(p, b.data(), n); }
	Exact(const Exact &) = delete;
	~Exact() { std::free(block); }
};
