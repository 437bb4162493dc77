package mon;

import java.math.BigInteger;

/**
 * Messages that drive a hash function's working registers and message schedule through rare values
 * (zero, all ones, sign bit only, two equal registers), which random messages meet once in 2^32 rounds.
 */
final class Steer {
	/** A rare word of 32 or 64 bits (as the low bits of the result). */
	static long special(Rng r, int bits) {
		switch (r.below(9)) {
			case 0: case 1: case 2: return 0;
			case 3: case 4: return -1L >>> (64 - bits);
			case 5: return 1L << (bits - 1);
			case 6: return -1L >>> (65 - bits);
			case 7: return 1L << r.below(bits);
			default: return (r.chance(2, 3) ? r.below(5) : -r.below(5)) & -1L >>> (64 - bits);
		}
	}
	static void store(byte[] m, int at, long v, int bits, boolean little) { int n = bits / 8; for (int i = 0; i < n; i++) m[at + (little ? i : n - 1 - i)] = (byte)(v >>> 8 * i); }
	static long load(byte[] m, int at, int bits, boolean little) { int n = bits / 8; long v = 0; for (int i = 0; i < n; i++) v |= (m[at + (little ? i : n - 1 - i)] & 0xFFL) << 8 * i; return v; }
	
	/** SHA-256 and SHA-512; every constant comes from the roots of the primes. */
	static final class Sha2 {
		final int bits, rounds; final long mask; final long[] k, iv = new long[8]; final int[] rot;
		static BigInteger root(BigInteger v, int n) {
			if (n == 2) return v.sqrt();
			BigInteger lo = BigInteger.ZERO, hi = BigInteger.ONE.shiftLeft(v.bitLength() / 3 + 1);
			while (hi.subtract(lo).bitLength() > 1) { BigInteger mid = lo.add(hi).shiftRight(1); if (mid.pow(3).compareTo(v) <= 0) lo = mid; else hi = mid; }
			return lo;
		}
		Sha2(int bits) {
			this.bits = bits; rounds = bits == 32 ? 64 : 80; mask = -1L >>> (64 - bits); k = new long[rounds];
			rot = bits == 32 ? new int[]{7, 18, 3, 17, 19, 10, 2, 13, 22, 6, 11, 25} : new int[]{1, 8, 7, 19, 61, 6, 28, 34, 39, 14, 18, 41};
			int n = 0;
			for (int p = 2; n < rounds; p++) {
				if (!BigInteger.valueOf(p).isProbablePrime(50)) continue;
				k[n] = root(BigInteger.valueOf(p).shiftLeft(192), 3).longValue() >>> (64 - bits);
				if (n < 8) iv[n] = root(BigInteger.valueOf(p).shiftLeft(128), 2).longValue() >>> (64 - bits);
				n++;
			}
		}
		long ror(long x, int n) { return (x >>> n | x << (bits - n)) & mask; }
		long small(long x, int i) { return ror(x, rot[i]) ^ ror(x, rot[i + 1]) ^ x >>> rot[i + 2]; }
		long large(long x, int i) { return ror(x, rot[i]) ^ ror(x, rot[i + 1]) ^ ror(x, rot[i + 2]); }
		void round(long[] v, int t, long w) {
			long t1 = v[7] + large(v[4], 9) + (v[6] ^ (v[4] & (v[5] ^ v[6]))) + k[t] + w, t2 = large(v[0], 6) + ((v[0] & (v[1] | v[2])) | (v[1] & v[2]));
			for (int i = 7; i > 0; i--) v[i] = v[i - 1];
			v[4] = (v[4] + t1) & mask; v[0] = (t1 + t2) & mask;
		}
		void steer(Ctx c, byte[] m) {
			Rng r = c.rng;
			int len = 2 * bits, ws = bits / 8;
			long[] state = iv.clone(), w = new long[rounds];
			for (int off = 0; off < m.length; off += len) {
				int words = Math.min(len, m.length - off) / ws;
				if (words == 16 && r.chance(1, 3)) {  // sixteen consecutive schedule words, anywhere
					int from = r.below(rounds - 15);
					for (int t = from; t < from + 16; t++) w[t] = r.chance(2, 3) ? special(r, bits) : r.next() & mask;
					for (int t = from - 1; t >= 0; t--) w[t] = (w[t + 16] - small(w[t + 14], 3) - w[t + 9] - small(w[t + 1], 0)) & mask;
					for (int t = 0; t < 16; t++) store(m, off + t * ws, w[t], bits, false);
					c.hit("steer.schedule-window");
				} else {
					long[] v = state.clone();
					int dense = 1 + r.below(3);
					for (int t = 0; t < words; t++) {
						long x = r.next() & mask, want = r.chance(1, 4) ? v[r.below(8)] : special(r, bits);
						if (r.chance(dense, 3)) {
							long[] y = v.clone();
							round(y, t, 0);
							x = (want - y[r.chance(1, 2) ? 0 : 4]) & mask;
							c.hit("steer.register");
						}
						store(m, off + t * ws, x, bits, false);
						round(v, t, x);
					}
				}
				if (words < 16) continue;
				for (int t = 0; t < rounds; t++) w[t] = t < 16 ? load(m, off + t * ws, bits, false) : (small(w[t - 2], 3) + w[t - 7] + small(w[t - 15], 0) + w[t - 16]) & mask;
				long[] v = state.clone();
				for (int t = 0; t < rounds; t++) round(v, t, w[t]);
				for (int i = 0; i < 8; i++) state[i] = (state[i] + v[i]) & mask;
			}
		}
	}
	static final Sha2 SHA256 = new Sha2(32), SHA512 = new Sha2(64);
	
	/** RIPEMD-160: the first sixteen steps of either line on the first block. */
	static void ripemd(Ctx c, byte[] m) {
		Rng r = c.rng;
		if (m.length < 64) return;
		boolean right = r.chance(1, 2);
		int[] shifts = right ? new int[]{8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6} : new int[]{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8};
		int[] order = {5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12};
		int a = 0x67452301, b = 0xEFCDAB89, d = 0x10325476, cc = 0x98BADCFE, e = 0xC3D2E1F0;
		for (int t = 0; t < 16; t++) {
			int sum = a + (right ? b ^ (cc | ~d) : b ^ cc ^ d) + (right ? 0x50A28BE6 : 0), x = r.u32();
			if (r.chance(2, 3)) {  // the rotated sum, or the register
				int want = r.chance(1, 3) ? (int)special(r, 32) : (r.chance(1, 4) ? b : (int)special(r, 32)) - e;
				x = Integer.rotateRight(want, shifts[t]) - sum;
				c.hit("steer.register");
			}
			store(m, 4 * (right ? order[t] : t), x, 32, true);
			int n = Integer.rotateLeft(sum + x, shifts[t]) + e;
			a = e; e = d; d = Integer.rotateLeft(cc, 10); cc = b; b = n;
		}
	}
	
	/** Keccak: rare lanes, and columns of the first block whose parity is rare. */
	static void keccak(Ctx c, byte[] m) {
		Rng r = c.rng;
		for (int i = 0; i < m.length / 8; i++) if (r.chance(1, 2)) { store(m, 8 * i, special(r, 64), 64, true); c.hit("steer.lane"); }
		if (m.length >= 136) for (int col = 0; col < 5; col++) if (r.chance(1, 2)) {
			long par = special(r, 64);
			for (int i = col + 5; i < 17; i += 5) par ^= load(m, 8 * i, 64, true);
			store(m, 8 * col, par, 64, true);
			c.hit("steer.column");
		}
	}
	
	static void steer(Ctx c, byte[] m, int block, int limit) {
		if (limit == 56 && c.suite.contains("ripemd")) ripemd(c, m);
		else if (limit == 56) SHA256.steer(c, m);
		else if (limit == 112) SHA512.steer(c, m);
		else keccak(c, m);
	}
}
