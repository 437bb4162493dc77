// Messages that drive a hash function's working registers and message schedule through rare values
// (zero, all ones, sign bit only, two equal registers), which random messages meet once in 2^32 rounds.
#pragma once
#include "common.hpp"

template<class W> static W special(Rng &r) {
	const int bits = 8 * sizeof(W);
	switch (r.below(9)) {
		case 0: case 1: case 2: return 0;
		case 3: case 4: return static_cast<W>(~W(0));
		case 5: return static_cast<W>(W(1) << (bits - 1));
		case 6: return static_cast<W>(~(W(1) << (bits - 1)));
		case 7: return static_cast<W>(W(1) << r.below(bits));
		default: return static_cast<W>(r.below(3) ? r.below(5) : 0 - r.below(5));
	}
}

// SHA-256 (W = uint32_t) and SHA-512 (W = uint64_t); every constant comes from the roots of the primes.
template<class W> struct Sha2Model {
	static const int bits = 8 * sizeof(W), rounds = bits == 32 ? 64 : 80;
	W k[rounds], iv[8];
	static W fraction(int prime, int root) {
		mpz_class v = prime;
		v <<= 64 * root;
		mpz_root(v.get_mpz_t(), v.get_mpz_t(), root);
		uint64_t f = 0;
		for (int i = 0; i < 64; i++) f |= uint64_t(mpz_tstbit(v.get_mpz_t(), i)) << i;
		return static_cast<W>(f >> (64 - bits));
	}
	Sha2Model() {
		for (int p = 2, n = 0; n < rounds; p++) {
			bool prime = true;
			for (int d = 2; d * d <= p; d++) prime = prime && p % d != 0;
			if (!prime) continue;
			k[n] = fraction(p, 3);
			if (n < 8) iv[n] = fraction(p, 2);
			n++;
		}
	}
	static W ror(W x, int n) { return static_cast<W>(x >> n | x << (bits - n)); }
	static W s0(W x) { return bits == 32 ? ror(x, 7) ^ ror(x, 18) ^ x >> 3 : ror(x, 1) ^ ror(x, 8) ^ x >> 7; }
	static W s1(W x) { return bits == 32 ? ror(x, 17) ^ ror(x, 19) ^ x >> 10 : ror(x, 19) ^ ror(x, 61 % bits) ^ x >> 6; }
	static W S0(W x) { return bits == 32 ? ror(x, 2) ^ ror(x, 13) ^ ror(x, 22) : ror(x, 28) ^ ror(x, 34 % bits) ^ ror(x, 39 % bits); }
	static W S1(W x) { return bits == 32 ? ror(x, 6) ^ ror(x, 11) ^ ror(x, 25) : ror(x, 14) ^ ror(x, 18) ^ ror(x, 41 % bits); }
	static W load(const uint8_t *p) { W x = 0; for (size_t i = 0; i < sizeof(W); i++) x = static_cast<W>(x << 8 | p[i]); return x; }
	static void store(uint8_t *p, W x) { for (size_t i = sizeof(W); i-- > 0; x >>= 8) p[i] = static_cast<uint8_t>(x); }
	// One round on (a .. h); returns nothing, w is the schedule word.
	void round(W *v, int t, W w) const {
		W t1 = v[7] + S1(v[4]) + (v[6] ^ (v[4] & (v[5] ^ v[6]))) + k[t] + w, t2 = S0(v[0]) + ((v[0] & (v[1] | v[2])) | (v[1] & v[2]));
		for (int i = 7; i > 0; i--) v[i] = v[i - 1];
		v[4] += t1; v[0] = t1 + t2;
	}
	void block(W *state, const uint8_t *p) const {
		W w[rounds], v[8];
		for (int t = 0; t < rounds; t++) w[t] = t < 16 ? load(p + t * sizeof(W)) : s1(w[t - 2]) + w[t - 7] + s0(w[t - 15]) + w[t - 16];
		std::copy(state, state + 8, v);
		for (int t = 0; t < rounds; t++) round(v, t, w[t]);
		for (int i = 0; i < 8; i++) state[i] += v[i];
	}
	void steer(Ctx &c, Bytes &m) const {
		Rng &r = c.rng;
		const size_t len = 16 * sizeof(W);
		W state[8];
		std::copy(iv, iv + 8, state);
		for (size_t off = 0; off < m.size(); off += len) {
			int words = static_cast<int>(std::min(len, m.size() - off) / sizeof(W));
			uint8_t *p = m.data() + off;
			if (words == 16 && r.chance(1, 3)) {  // sixteen consecutive schedule words, anywhere
				int from = static_cast<int>(r.below(rounds - 15));
				W w[rounds];
				for (int t = from; t < from + 16; t++) w[t] = r.chance(2, 3) ? special<W>(r) : static_cast<W>(r.next());
				for (int t = from - 1; t >= 0; t--) w[t] = w[t + 16] - s1(w[t + 14]) - w[t + 9] - s0(w[t + 1]);
				for (int t = 0; t < 16; t++) store(p + t * sizeof(W), w[t]);
				c.hit("steer.schedule-window");
			} else {
				W v[8];
				std::copy(state, state + 8, v);
				unsigned dense = 1 + r.below(3);
				for (int t = 0; t < words; t++) {
					W x[8], w = static_cast<W>(r.next()), want = r.chance(1, 4) ? v[r.below(8)] : special<W>(r);
					if (r.chance(dense, 3)) {
						std::copy(v, v + 8, x);
						round(x, t, 0);
						w = want - x[r.chance(1, 2) ? 0 : 4];
						c.hit("steer.register");
					}
					store(p + t * sizeof(W), w);
					round(v, t, w);
				}
			}
			if (words == 16) block(state, p);
		}
	}
};
static inline void steerSha256(Ctx &c, Bytes &m) { static const Sha2Model<uint32_t> model; model.steer(c, m); }
static inline void steerSha512(Ctx &c, Bytes &m) { static const Sha2Model<uint64_t> model; model.steer(c, m); }

// RIPEMD-160: the first sixteen steps of either line on the first block.
static inline void steerRipemd(Ctx &c, Bytes &m) {
	Rng &r = c.rng;
	static const int shifts[2][16] = {{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8}, {8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6}};
	static const int order[16] = {5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12};
	if (m.size() < 64) return;
	bool right = r.chance(1, 2);
	uint32_t a = 0x67452301, b = 0xEFCDAB89, d = 0x10325476, cc = 0x98BADCFE, e = 0xC3D2E1F0;
	for (int t = 0; t < 16; t++) {
		int s = shifts[right][t], at = 4 * (right ? order[t] : t);
		uint32_t sum = a + (right ? b ^ (cc | ~d) : b ^ cc ^ d) + (right ? 0x50A28BE6U : 0), x = r.u32();
		if (r.chance(2, 3)) {
			uint32_t want = r.chance(1, 3) ? special<uint32_t>(r) : (r.chance(1, 4) ? b : special<uint32_t>(r)) - e;  // the rotated sum, or the register
			x = (want >> s | want << (32 - s)) - sum;
			c.hit("steer.register");
		}
		for (int i = 0; i < 4; i++) m[at + i] = static_cast<uint8_t>(x >> 8 * i);
		sum += x;
		uint32_t n = (sum << s | sum >> (32 - s)) + e;
		a = e; e = d; d = cc << 10 | cc >> 22; cc = b; b = n;
	}
}

// Keccak: rare lanes, and columns of the first block whose parity is rare.
static inline void steerKeccak(Ctx &c, Bytes &m) {
	Rng &r = c.rng;
	size_t lanes = m.size() / 8;
	auto put = [&](size_t i, uint64_t v) { for (int k = 0; k < 8; k++) m[8 * i + k] = static_cast<uint8_t>(v >> 8 * k); };
	auto get = [&](size_t i) { uint64_t v = 0; for (int k = 0; k < 8; k++) v |= uint64_t(m[8 * i + k]) << 8 * k; return v; };
	for (size_t i = 0; i < lanes; i++) if (r.chance(1, 2)) { put(i, special<uint64_t>(r)); c.hit("steer.lane"); }
	if (m.size() >= 136) for (size_t col = 0; col < 5; col++) if (r.chance(1, 2)) {
		uint64_t par = special<uint64_t>(r);
		for (size_t i = col + 5; i < 17; i += 5) par ^= get(i);
		put(col, par);
		c.hit("steer.column");
	}
}
