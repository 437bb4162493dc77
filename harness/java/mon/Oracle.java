package mon;

import static mon.Gen.*;
import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.Arrays;

/** Reference algorithms: JDK digests, and plain re-implementations of what the JDK lacks. */
public final class Oracle {
	static byte[] jdk(String alg, byte[]... parts) {
		try { MessageDigest d = MessageDigest.getInstance(alg); for (byte[] p : parts) d.update(p); return d.digest(); }
		catch (java.security.NoSuchAlgorithmException e) { throw new IllegalStateException(e); }
	}
	public static byte[] sha256(byte[]... p) { return jdk("SHA-256", p); }
	public static byte[] sha512(byte[]... p) { return jdk("SHA-512", p); }
	public static byte[] sha256d(byte[] m) { return sha256(sha256(m)); }
	static byte[] hmac(String alg, int block, byte[] key, byte[] msg) {
		if (key.length > block) key = jdk(alg, key);
		byte[] i = new byte[block], o = new byte[block];
		for (int k = 0; k < block; k++) { byte x = k < key.length ? key[k] : 0; i[k] = (byte)(x ^ 0x36); o[k] = (byte)(x ^ 0x5C); }
		return jdk(alg, o, jdk(alg, i, msg));
	}
	public static byte[] hmac256(byte[] k, byte[] m) { return hmac("SHA-256", 64, k, m); }
	public static byte[] hmac512(byte[] k, byte[] m) { return hmac("SHA-512", 128, k, m); }

	/*---- Keccak[1088,512], generated constants ----*/
	static final long[] RC = new long[24]; static final int[] ROT = new int[25];
	static {
		int lfsr = 1;
		for (int i = 0; i < 24; i++) for (int j = 0; j < 7; j++) {
			if ((lfsr & 1) != 0) RC[i] ^= 1L << ((1 << j) - 1);
			lfsr = lfsr << 1; if ((lfsr & 0x100) != 0) lfsr ^= 0x171;
		}
		int x = 1, y = 0;
		for (int t = 0; t < 24; t++) { ROT[x + 5 * y] = (t + 1) * (t + 2) / 2 % 64; int ny = (2 * x + 3 * y) % 5; x = y; y = ny; }
	}
	static void keccakF(long[] s) {
		for (int rnd = 0; rnd < 24; rnd++) {
			long[] c = new long[5], b = new long[25];
			for (int x = 0; x < 5; x++) c[x] = s[x] ^ s[x+5] ^ s[x+10] ^ s[x+15] ^ s[x+20];
			for (int i = 0; i < 25; i++) s[i] ^= c[(i + 4) % 5] ^ Long.rotateLeft(c[(i % 5 + 1) % 5], 1);
			for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) b[y + 5 * ((2 * x + 3 * y) % 5)] = Long.rotateLeft(s[x + 5 * y], ROT[x + 5 * y]);
			for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) s[x + 5*y] = b[x + 5*y] ^ (~b[(x+1)%5 + 5*y] & b[(x+2)%5 + 5*y]);
			s[0] ^= RC[rnd];
		}
	}
	static byte[] sponge(byte[] m, int pad) {
		long[] s = new long[25];
		int full = m.length / 136;
		for (int k = 0; k <= full; k++) {
			byte[] blk = new byte[136];
			int n = Math.min(136, m.length - k * 136);
			System.arraycopy(m, k * 136, blk, 0, n);
			if (k == full) { blk[n] ^= (byte)pad; blk[135] ^= (byte)0x80; }
			for (int i = 0; i < 17; i++) { long v = 0; for (int j = 7; j >= 0; j--) v = v << 8 | (blk[8*i+j] & 0xFF); s[i] ^= v; }
			keccakF(s);
		}
		byte[] r = new byte[32];
		for (int i = 0; i < 32; i++) r[i] = (byte)(s[i / 8] >>> (8 * (i % 8)));
		return r;
	}
	public static byte[] keccak(byte[] m) { return sponge(m, 1); }

	/*---- RIPEMD-160, tables built from the rho/pi permutations of its specification ----*/
	static final int[] RHO = {7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8};
	static final int[][] SH = {
		{11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8}, {12,13,11,15,6,9,9,7,12,15,11,13,7,8,7,7}, {13,15,14,11,7,7,6,8,13,14,13,12,5,5,6,9},
		{14,11,12,14,8,6,5,5,15,12,15,14,9,9,8,6}, {15,12,13,13,9,5,8,6,14,11,12,11,8,6,5,5}};
	static final int[] KL = {0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E}, KR = {0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0};
	static int rf(int k, int x, int y, int z) { switch (k) { case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z; case 3: return (x & z) | (y & ~z); default: return x ^ (y | ~z); } }
	static void rmdBlock(int[] h, byte[] b, int off) {
		int[] X = new int[16];
		for (int i = 0; i < 16; i++) X[i] = (b[off+4*i] & 255) | (b[off+4*i+1] & 255) << 8 | (b[off+4*i+2] & 255) << 16 | (b[off+4*i+3] & 255) << 24;
		int[] l = h.clone(), r = h.clone();
		int[] li = new int[16], ri = new int[16];
		for (int i = 0; i < 16; i++) { li[i] = i; ri[i] = (9 * i + 5) % 16; }
		for (int rd = 0; rd < 5; rd++) {
			for (int j = 0; j < 16; j++) {
				int t = Integer.rotateLeft(l[0] + rf(rd, l[1], l[2], l[3]) + X[li[j]] + KL[rd], SH[rd][li[j]]) + l[4];
				l[0] = l[4]; l[4] = l[3]; l[3] = Integer.rotateLeft(l[2], 10); l[2] = l[1]; l[1] = t;
				t = Integer.rotateLeft(r[0] + rf(4 - rd, r[1], r[2], r[3]) + X[ri[j]] + KR[rd], SH[rd][ri[j]]) + r[4];
				r[0] = r[4]; r[4] = r[3]; r[3] = Integer.rotateLeft(r[2], 10); r[2] = r[1]; r[1] = t;
			}
			for (int i = 0; i < 16; i++) { li[i] = RHO[li[i]]; ri[i] = RHO[ri[i]]; }
		}
		int t = h[1] + l[2] + r[3];
		h[1] = h[2] + l[3] + r[4]; h[2] = h[3] + l[4] + r[0]; h[3] = h[4] + l[0] + r[1]; h[4] = h[0] + l[1] + r[2]; h[0] = t;
	}
	public static byte[] ripemd160(byte[] m) {
		int[] h = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
		int full = m.length / 64;
		for (int k = 0; k < full; k++) rmdBlock(h, m, 64 * k);
		int rest = m.length - 64 * full;
		byte[] tail = new byte[rest < 56 ? 64 : 128];
		System.arraycopy(m, 64 * full, tail, 0, rest);
		tail[rest] = (byte)0x80;
		long bits = 8L * m.length;
		for (int i = 0; i < 8; i++) tail[tail.length - 8 + i] = (byte)(bits >>> (8 * i));
		for (int o = 0; o < tail.length; o += 64) rmdBlock(h, tail, o);
		byte[] r = new byte[20];
		for (int i = 0; i < 20; i++) r[i] = (byte)(h[i / 4] >>> (8 * (i % 4)));
		return r;
	}

	/*---- Base58 (digit-array arithmetic, not BigInteger division) ----*/
	static final String B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
	public static String base58(byte[] d) {
		int z = 0; while (z < d.length && d[z] == 0) z++;
		int[] dig = new int[d.length * 2 + 2]; int n = 0;
		for (int i = z; i < d.length; i++) {
			int c = d[i] & 0xFF;
			for (int j = 0; j < n; j++) { c += dig[j] << 8; dig[j] = c % 58; c /= 58; }
			while (c > 0) { dig[n++] = c % 58; c /= 58; }
		}
		StringBuilder sb = new StringBuilder();
		for (int i = 0; i < z; i++) sb.append('1');
		for (int j = n - 1; j >= 0; j--) sb.append(B58.charAt(dig[j]));
		return sb.toString();
	}
	/** Decoded bytes or null. */
	public static byte[] unbase58(String s) {
		int z = 0; while (z < s.length() && s.charAt(z) == '1') z++;
		int[] by = new int[s.length() + 2]; int n = 0;
		for (int i = z; i < s.length(); i++) {
			int v = -1; for (int k = 0; k < 58; k++) if (B58.charAt(k) == s.charAt(i)) v = k;
			if (v < 0) return null;
			int c = v;
			for (int j = 0; j < n; j++) { c += by[j] * 58; by[j] = c & 255; c >>= 8; }
			while (c > 0) { by[n++] = c & 255; c >>= 8; }
		}
		byte[] r = new byte[z + n];
		for (int j = 0; j < n; j++) r[z + j] = (byte)by[n - 1 - j];
		return r;
	}
	public static byte[] withCheck(byte[] d) { byte[] r = Arrays.copyOf(d, d.length + 4); System.arraycopy(sha256d(d), 0, r, d.length, 4); return r; }

	/*---- Bech32: checksum as a remainder over GF(32), written with field multiplication ----*/
	static final String B32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
	static int gfMul(int a, int b) { int r = 0; for (int i = 0; i < 5; i++) { if ((b >> i & 1) != 0) r ^= a << i; } for (int i = 8; i >= 5; i--) if ((r >> i & 1) != 0) r ^= 0x29 << (i - 5); return r; }
	static final int[] GENPOLY = {29, 22, 20, 21, 29, 18};   // x^6 + 29x^5 + 22x^4 + 20x^3 + 21x^2 + 29x + 18
	static int[] bechRemainder(int[] v) {   // v(x) with leading 1, modulo the generator
		int[] rem = {0, 0, 0, 0, 0, 1};
		for (int d : v) {
			int top = rem[0];
			for (int i = 0; i < 5; i++) rem[i] = rem[i + 1];
			rem[5] = d;
			for (int i = 0; i < 6; i++) rem[i] ^= gfMul(top, GENPOLY[i]);
		}
		return rem;
	}
	static int[] bechValues(String hrp, int[] data, int extra) {
		int[] v = new int[2 * hrp.length() + 1 + data.length + extra]; int n = 0;
		for (int i = 0; i < hrp.length(); i++) v[n++] = hrp.charAt(i) / 32 & 31;
		v[n++] = 0;
		for (int i = 0; i < hrp.length(); i++) v[n++] = hrp.charAt(i) % 32;
		for (int d : data) v[n++] = d & 31;
		return v;
	}
	public static String bech32(String hrp, int[] data) {   // no validation
		int[] rem = bechRemainder(bechValues(hrp, data, 6)); rem[5] ^= 1;
		StringBuilder sb = new StringBuilder(hrp).append('1');
		for (int d : data) sb.append(B32.charAt(d));
		for (int d : rem) sb.append(B32.charAt(d));
		return sb.toString();
	}
	static boolean validHrp(String h) {
		if (h.length() < 1 || h.length() > 83) return false;
		for (int i = 0; i < h.length(); i++) { char c = h.charAt(i); if (c < 33 || c > 126 || c >= 'A' && c <= 'Z') return false; }
		return true;
	}
	/** {hrp, int[] data} or null. */
	public static Object[] unbech32(String s) {
		if (s.length() > 90) return null;
		boolean lo = false, up = false;
		StringBuilder t = new StringBuilder();
		for (int i = 0; i < s.length(); i++) { char c = s.charAt(i); if (c >= 'a' && c <= 'z') lo = true; if (c >= 'A' && c <= 'Z') { up = true; c += 32; } t.append(c); }
		if (lo && up) return null;
		int sep = -1; for (int i = 0; i < t.length(); i++) if (t.charAt(i) == '1') sep = i;
		if (sep < 0) return null;
		String h = t.substring(0, sep);
		if (!validHrp(h)) return null;
		int n = t.length() - sep - 1;
		if (n < 6) return null;
		int[] all = new int[n];
		for (int i = 0; i < n; i++) { all[i] = B32.indexOf(t.charAt(sep + 1 + i)); if (all[i] < 0) return null; }
		int[] rem = bechRemainder(bechValues(h, all, 0));
		if (!Arrays.equals(rem, new int[]{0, 0, 0, 0, 0, 1})) return null;
		return new Object[]{h, Arrays.copyOf(all, n - 6)};
	}
	public static int[] segwitGroups(int ver, byte[] prog) {   // via one big integer
		int bits = prog.length * 8, g = (bits + 4) / 5;
		BigInteger v = new BigInteger(1, prog).shiftLeft(g * 5 - bits);
		int[] r = new int[1 + g]; r[0] = ver;
		for (int i = 0; i < g; i++) r[1 + i] = v.shiftRight(5 * (g - 1 - i)).intValue() & 31;
		return r;
	}
	/** {ver, byte[] prog} or null. */
	public static Object[] unsegwit(int[] d) {
		if (d.length < 1 || d[0] > 16) return null;
		int g = d.length - 1, len = g * 5 / 8, pad = g * 5 - len * 8;
		if (len < 2 || len > 40 || pad >= 5) return null;
		BigInteger v = ZERO;
		for (int i = 1; i <= g; i++) v = v.shiftLeft(5).or(BigInteger.valueOf(d[i]));
		if (v.and(ONE.shiftLeft(pad).subtract(ONE)).signum() != 0) return null;
		v = v.shiftRight(pad);
		byte[] p = new byte[len];
		for (int i = 0; i < len; i++) p[i] = (byte)v.shiftRight(8 * (len - 1 - i)).intValue();
		return new Object[]{d[0], p};
	}

	/*---- ECDSA ----*/
	/** {r, s} or null. */
	public static BigInteger[] sign(BigInteger d, BigInteger z, BigInteger k) {
		if (k.signum() == 0 || k.compareTo(N) >= 0) return null;
		BigInteger r = Pt.G.mul(k).x.mod(N);
		if (r.signum() == 0) return null;
		BigInteger s = k.modInverse(N).multiply(z.add(r.multiply(d))).mod(N);
		if (s.signum() == 0) return null;
		return new BigInteger[]{r, s.min(N.subtract(s))};
	}
	public static boolean verify(BigInteger x, BigInteger y, BigInteger zc, BigInteger z, BigInteger r, BigInteger s) {
		if (r.signum() == 0 || r.compareTo(N) >= 0 || s.signum() == 0 || s.compareTo(N) >= 0 || !zc.equals(ONE)) return false;
		Pt q = new Pt(x, y);
		if (!q.onCurve()) return false;
		BigInteger w = s.modInverse(N);
		Pt p = Pt.G.mul(z.multiply(w).mod(N)).add(q.mul(r.multiply(w).mod(N)));
		return !p.inf() && p.x.mod(N).equals(r);
	}

	static void want(boolean ok, String what) { if (!ok) throw new IllegalStateException("oracle self-test: " + what); }
	static byte[] ascii(String s) { return s.getBytes(java.nio.charset.StandardCharsets.ISO_8859_1); }
	static void selfTest() {
		want(hex(ripemd160(ascii(""))).equals("9c1185a5c5e9fc54612808977ee8f548b2258d31"), "rmd empty");
		want(hex(ripemd160(ascii("abcdefghijklmnopqrstuvwxyz"))).equals("f71c27109c692c1b56bbdceb5b9d2865b3708dbc"), "rmd a..z");
		want(hex(ripemd160(ascii("12345678901234567890123456789012345678901234567890123456789012345678901234567890"))).equals("9b752e45573d4b39f4dbd3323cab82bf63326bfb"), "rmd 80");
		Rng r = new Rng(1, "selftest", 0);
		for (int i = 0; i < 20; i++) {
			byte[] m = r.bytes(r.below(500));
			want(Arrays.equals(sponge(m, 6), jdk("SHA3-256", m)), "keccak");
			byte[] b = r.bytes(r.below(60)); if (b.length > 2) b[0] = b[1] = 0;
			want(Arrays.equals(unbase58(base58(b)), b), "base58");
			BigInteger k = nonzeroBelow(r, N);
			Pt p = Pt.G.mul(k);
			want(p.onCurve() && p.add(Pt.G).eq(Pt.G.mul(k.add(ONE))) && Pt.G.mul(N).inf(), "curve");
		}
		want(hex(keccak(ascii(""))).equals("c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"), "keccak empty");
		want(unbech32("A12UEL5L") != null && unbech32("split1checkupstagehandshakeupstreamerranterredcaperred2y9e3w") != null && unbech32("A12uel5l") == null, "bech32");
		want(bech32("bc", segwitGroups(0, new java.math.BigInteger("751e76e8199196d454941c45d1b3a323f1433bd6", 16).toByteArray())).equals("bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4"), "segwit");
	}
}
