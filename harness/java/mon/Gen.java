package mon;

import java.math.BigInteger;
import java.nio.file.*;
import java.util.*;

/** Value generators biased towards carries, boundaries and structure. */
public final class Gen {
	public static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE, TWO = BigInteger.valueOf(2), THREE = BigInteger.valueOf(3);
	public static final BigInteger M = ONE.shiftLeft(256);
	public static final BigInteger P = M.subtract(ONE.shiftLeft(32)).subtract(BigInteger.valueOf(977));
	public static final BigInteger N = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16);
	public static final BigInteger GX = new BigInteger("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16);
	public static final BigInteger GY = new BigInteger("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16);
	static final BigInteger[] ANCHORS = {ZERO, ONE, P, N, GX, GY, N.shiftRight(1), P.shiftRight(1), M.subtract(ONE), M.subtract(P), M.subtract(N), P.subtract(N), M.shiftRight(1), N.divide(THREE), P.divide(THREE)};
	static int[] dictionary = {};

	static void loadDictionary(String path) throws java.io.IOException {
		List<String> l = Files.readAllLines(Paths.get(path));
		dictionary = new int[l.size()];
		for (int i = 0; i < dictionary.length; i++) dictionary[i] = Integer.parseUnsignedInt(l.get(i), 16);
	}

	public static BigInteger wrap(BigInteger v) { return v.mod(M); }
	public static int[] words(BigInteger v) { int[] w = new int[8]; for (int i = 0; i < 8; i++) w[i] = v.shiftRight(32 * i).intValue(); return w; }
	public static void put(int[] a, int off, BigInteger v) { System.arraycopy(words(v), 0, a, off, 8); }
	public static BigInteger get(int[] a, int off) {
		byte[] b = new byte[32];
		for (int i = 0; i < 32; i++) b[31 - i] = (byte)(a[off + i / 4] >>> (8 * (i % 4)));
		return new BigInteger(1, b);
	}
	public static byte[] be32(BigInteger v) {
		byte[] b = v.toByteArray(), r = new byte[32];
		for (int i = 0; i < 32 && i < b.length; i++) r[31 - i] = b[b.length - 1 - i];
		return r;
	}
	public static String hex(BigInteger v) { return String.format("%064x", v); }
	public static String hex(byte[] b) { StringBuilder s = new StringBuilder(); for (byte x : b) { s.append(Character.forDigit(x >> 4 & 15, 16)).append(Character.forDigit(x & 15, 16)); } return s.toString(); }
	public static String hexShort(byte[] b) { return b.length <= 48 ? hex(b) : hex(Arrays.copyOf(b, 48)) + "...(" + b.length + " bytes)"; }

	static int edgeWord(Rng r) {
		switch (r.below(12)) {
			case 0: case 1: return 0;
			case 2: case 3: return -1;
			case 4: return 1;
			case 5: return 0x80000000;
			case 6: return 0x7FFFFFFF;
			case 7: return -2;
			case 8: return 1 << r.below(32);
			case 9: return dictionary.length > 0 ? dictionary[r.below(dictionary.length)] : 0xFFFFFC2F;
			default: return r.u32();
		}
	}
	static BigInteger fromWords(int[] w) { return get(w, 0); }
	static BigInteger rand(Rng r) { return new BigInteger(1, r.bytes(32)); }
	static BigInteger small(Rng r) {
		switch (r.below(4)) { case 0: return BigInteger.valueOf(r.below(4)); case 1: return BigInteger.valueOf(r.below(1 << 16)); case 2: return BigInteger.valueOf(r.next() >>> 1); default: return ONE.shiftLeft(r.below(140)); }
	}
	public static BigInteger v256(Rng r) {
		switch (r.below(12)) {
			case 0: case 1: return rand(r);
			case 2: case 3: { int[] w = new int[8]; for (int i = 0; i < 8; i++) w[i] = edgeWord(r); return fromWords(w); }
			case 4: { int[] w = new int[8]; for (int i = 0; i < 8; i += 2) { switch (r.below(5)) { case 0: break; case 1: w[i] = w[i+1] = -1; break; case 2: w[i] = 1; break; case 3: w[i] = -2; w[i+1] = -1; break; default: w[i] = r.u32(); w[i+1] = r.u32(); } } return fromWords(w); }
			case 5: case 6: { BigInteger a = ANCHORS[r.below(ANCHORS.length)], d = small(r); return wrap(r.chance(1, 2) ? a.add(d) : a.subtract(d)); }
			case 7: { int lo = r.below(257), hi = r.below(257); if (lo > hi) { int t = lo; lo = hi; hi = t; } BigInteger v = ONE.shiftLeft(hi).subtract(ONE.shiftLeft(lo)); return r.chance(1, 3) ? wrap(v.add(small(r))) : wrap(v); }
			case 8: { BigInteger v = ZERO; for (int n = 1 + r.below(4); n > 0; n--) v = v.setBit(r.below(256)); return r.chance(1, 2) ? v : M.subtract(ONE).subtract(v); }
			case 9: return rand(r).shiftRight(r.below(256));
			case 10: {
				int pat; switch (r.below(3)) { case 0: pat = 0x11111111 * r.below(16); break; case 1: pat = 0x01010101 * r.below(256); break; default: pat = r.u32(); }
				int[] w = new int[8]; Arrays.fill(w, pat); BigInteger v = fromWords(w);
				if (r.chance(1, 2)) { int sh = 4 * r.below(64); v = r.chance(1, 2) ? v.shiftRight(sh) : wrap(v.shiftLeft(sh)); }
				return v;
			}
			default: return small(r);
		}
	}
	public static BigInteger below(Rng r, BigInteger m) {
		switch (r.below(8)) {
			case 0: return BigInteger.valueOf(r.below(4)).mod(m);
			case 1: return m.subtract(ONE).subtract(BigInteger.valueOf(r.below(4))).mod(m);
			case 2: return rand(r).mod(m);
			default: return v256(r).mod(m);
		}
	}
	public static BigInteger related(Rng r, BigInteger a) {
		switch (r.below(16)) {
			case 0: return a;
			case 1: return wrap(a.add(ONE));
			case 2: return wrap(a.subtract(ONE));
			case 3: return wrap(a.negate());
			case 4: return M.subtract(ONE).subtract(a);
			case 5: return a.flipBit(r.below(256));
			case 6: { int[] w = words(a); w[r.below(8)] = edgeWord(r); return fromWords(w); }
			case 7: return wrap(P.subtract(a));
			case 8: return wrap(N.subtract(a));
			case 9: return wrap(r.chance(1, 2) ? a.add(small(r)) : M.subtract(a).add(small(r)));
			default: return v256(r);
		}
	}
	public static BigInteger scalar(Rng r) {
		switch (r.below(8)) {
			case 0: return BigInteger.valueOf(r.below(40));
			case 1: return wrap(N.subtract(BigInteger.valueOf(20)).add(BigInteger.valueOf(r.below(40))));
			case 2: { BigInteger v = ZERO; for (int i = 0; i < 64; i++) { int d = r.chance(1, 2) ? 0 : r.chance(1, 2) ? 15 : r.below(16); v = v.shiftLeft(4).or(BigInteger.valueOf(d)); } return v; }
			case 3: return wrap(N.shiftRight(1).subtract(BigInteger.valueOf(10)).add(BigInteger.valueOf(r.below(20))));
			default: return v256(r);
		}
	}
	public static BigInteger nonzeroBelow(Rng r, BigInteger m) { BigInteger v; do v = below(r, m); while (v.signum() == 0); return v; }
}
