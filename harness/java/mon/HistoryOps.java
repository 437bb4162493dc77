package mon;

import io.nayuki.bitcoin.crypto.*;
import java.nio.charset.StandardCharsets;
import java.util.*;

/** Library calls and nothing else; the texts it makes do not depend on locale or charset. */
public final class HistoryOps implements HistoryDriver {
	// s scalar in [1, n), v 256-bit value, f field value, p point (96 bytes), h 32 bytes, b one byte, m message, k HMAC key, d short data, t hexadecimal text,
	// a Base58 text, g 5-bit groups, r human part, e Bech32 text, w witness program, x segwit text; texts are UTF-8
	static final String[] NAMES = {"uint", "recip", "field", "padd", "ptwice", "pmul", "sign", "hmacsign", "verify", "sha256", "sha256d", "hmac256", "sha512", "hmac512", "ripemd160", "keccak256",
		"hash-value", "hash-text", "base58-encode", "base58-decode", "bech32-encode", "bech32-decode", "segwit-encode", "segwit-decode", "uint-text", "base-point"};
	static final String[] KINDS = {"vvb", "sb", "ff", "pp", "p", "pv", "shs", "sh", "sshb", "m", "m", "km", "m", "km", "m", "m", "hh", "t", "d", "a", "rg", "e", "rbw", "x", "vt", "b"};
	private final Map<Integer,int[]> intPool = new HashMap<>(); private final Map<Integer,byte[]> bytePool = new HashMap<>(); private final Map<String,String> textPool = new HashMap<>();
	private boolean reuse; private int used;
	private int[] ints(int n) { return reuse ? intPool.computeIfAbsent(n * 16 + used++, k -> new int[n]) : new int[n]; }   // not cleared: left-overs of the previous call
	private byte[] bytes(byte[] b) {
		if (!reuse) return b.clone();
		byte[] r = bytePool.computeIfAbsent(b.length * 16 + used++, k -> new byte[b.length]);
		System.arraycopy(b, 0, r, 0, b.length); return r;
	}
	private String text(byte[] b) { String s = new String(b, StandardCharsets.UTF_8); return reuse ? textPool.computeIfAbsent(s, k -> k) : s; }
	private static void put(int[] v, int off, byte[] be, int from) {
		for (int i = 0; i < 8; i++) { int p = from + 28 - 4 * i; v[off + i] = (be[p] & 255) << 24 | (be[p + 1] & 255) << 16 | (be[p + 2] & 255) << 8 | be[p + 3] & 255; }
	}
	private int[] uint(byte[] be) { int[] v = ints(8); put(v, 0, be, 0); return v; }
	private static void point(int[] v, int off, byte[] p) { for (int i = 0; i < 3; i++) put(v, off + 8 * i, p, 32 * i); }
	static final String DIGITS = "0123456789abcdef";
	static String h(byte[] b) { if (b == null) return "null"; StringBuilder o = new StringBuilder(","); for (byte x : b) o.append(DIGITS.charAt(x >> 4 & 15)).append(DIGITS.charAt(x & 15)); return o.toString(); }
	static String w(int[] v, int off, int n) { StringBuilder o = new StringBuilder(","); for (int i = off; i < off + n; i++) for (int k = 28; k >= 0; k -= 4) o.append(DIGITS.charAt(v[i] >>> k & 15)); return o.toString(); }
	/** The result, and afterwards the caller overwrites the array it was given. */
	private static String taken(byte[] b) { String s = h(b); Arrays.fill(b, (byte)0x5A); return s; }
	private static String taken(Sha256Hash h) { return taken(h.toBytes()) + h(h.toBytes()) + "," + h; }
	@Override public String run(int op, byte[][] a, boolean r) {
		reuse = r; used = 0;
		try { return op(op, a); }
		catch (RuntimeException | AssertionError e) { return "throws " + e.getClass().getName(); }
	}
	private String op(int op, byte[][] a) {
		switch (op) {
			case 0: {
				int[] v = ints(24); int e = a[2][0] & 1; StringBuilder o = new StringBuilder(); put(v, 0, a[0], 0); put(v, 8, a[1], 0);
				o.append(Int256Math.uintAdd(v, 0, 8, e, 16)).append(w(v, 16, 8)).append(Int256Math.uintSubtract(v, 0, 8, e, 16)).append(w(v, 16, 8)).append(Int256Math.uintShiftLeft1(v, 0, 16)).append(w(v, 16, 8));
				Int256Math.uintShiftRight1(v, 0, e, 16); o.append(w(v, 16, 8)).append(Int256Math.equalTo(v, 0, 8)).append(Int256Math.lessThan(v, 0, 8));
				Int256Math.swap(v, 0, 8, e); o.append(w(v, 0, 16)); Int256Math.replace(v, 0, 8, e ^ 1); return o.append(w(v, 0, 16)).toString();
			}
			case 1: {
				int[] v = ints(24 + Int256Math.RECIPROCAL_TEMP_WORDS); put(v, 0, a[0], 0);
				int[] m = {(a[1][0] & 1) != 0 ? 0xFFFFFC2F : 0xD0364141, (a[1][0] & 1) != 0 ? 0xFFFFFFFE : 0xBFD25E8C, (a[1][0] & 1) != 0 ? -1 : 0xAF48A03B, (a[1][0] & 1) != 0 ? -1 : 0xBAAEDCE6, (a[1][0] & 1) != 0 ? -1 : -2, -1, -1, -1};
				System.arraycopy(m, 0, v, 8, 8); Int256Math.reciprocal(v, 0, 8, 16, 24); return w(v, 0, 24);
			}
			case 2: {
				int[] v = ints(24 + Int256Math.FIELD_MULTIPLY_TEMP_WORDS); put(v, 0, a[0], 0); put(v, 8, a[1], 0); String o;
				Int256Math.fieldMultiply(v, 0, 8, 16, 24); o = w(v, 16, 8); Int256Math.fieldSquare(v, 0, 16, 24); o += w(v, 16, 8); Int256Math.fieldAdd(v, 0, 8, 16, 24); o += w(v, 16, 8);
				Int256Math.fieldSubtract(v, 0, 8, 16, 24); o += w(v, 16, 8); Int256Math.fieldMultiply2(v, 0, 16, 24); o += w(v, 16, 8); Int256Math.fieldMultiply(v, 0, 0, 0, 24); return o + w(v, 0, 16);
			}
			case 3: {
				int[] v = ints(48 + CurvePointMath.ADD_TEMP_WORDS + CurvePointMath.NORMALIZE_TEMP_WORDS); point(v, 0, a[0]); point(v, 24, a[1]);
				CurvePointMath.add(v, 0, 24, 48); String o = w(v, 0, 48); CurvePointMath.normalize(v, 0, 48); return o + w(v, 0, 24);
			}
			case 4: {
				int[] v = ints(24 + CurvePointMath.ADD_TEMP_WORDS + CurvePointMath.NORMALIZE_TEMP_WORDS); point(v, 0, a[0]); CurvePointMath.twice(v, 0, 24); String o = w(v, 0, 24); CurvePointMath.normalize(v, 0, 24);
				return o + w(v, 0, 24) + CurvePointMath.isZero(v, 0) + CurvePointMath.isOnCurve(v, 0, 24);
			}
			case 5: {
				int[] v = ints(32 + CurvePointMath.MULTIPLY_TEMP_WORDS + CurvePointMath.NORMALIZE_TEMP_WORDS); point(v, 0, a[0]); put(v, 24, a[1], 0);
				CurvePointMath.multiply(v, 0, 24, 32); CurvePointMath.normalize(v, 0, 32); return w(v, 0, 32);
			}
			case 6: { int[] x = ints(8), y = ints(8); Arrays.fill(x, 0); Arrays.fill(y, 0); boolean ok = Ecdsa.sign(uint(a[0]), new Sha256Hash(bytes(a[1])), uint(a[2]), x, y); return ok + w(x, 0, 8) + w(y, 0, 8); }
			case 7: { int[] x = ints(8), y = ints(8); Arrays.fill(x, 0); Arrays.fill(y, 0); boolean ok = Ecdsa.signWithHmacNonce(uint(a[0]), new Sha256Hash(bytes(a[1])), x, y); return ok + w(x, 0, 8) + w(y, 0, 8); }
			case 8: {   // a signature by the second key, checked with the first key's public key (often the same)
				int[] x = ints(8), y = ints(8); byte[] z = bytes(a[2]); Arrays.fill(x, 0); Arrays.fill(y, 0);
				boolean ok = Ecdsa.signWithHmacNonce(uint(a[1]), new Sha256Hash(z), x, y);
				int[] v = ints(32 + CurvePointMath.MULTIPLY_TEMP_WORDS + CurvePointMath.NORMALIZE_TEMP_WORDS), q = ints(24);
				System.arraycopy(CurvePointMath.getBasePoint(), 0, v, 0, 24); put(v, 24, a[0], 0); CurvePointMath.multiply(v, 0, 24, 32); CurvePointMath.normalize(v, 0, 32); System.arraycopy(v, 0, q, 0, 24);
				switch (a[3][0] & 7) { case 0: x[3] ^= 16; break; case 1: y[7] ^= 1; break; case 2: z[a[3][0] >> 3 & 31] ^= 1; break; case 3: System.arraycopy(q, 0, q, 8, 8); break; }
				return ok + "," + Ecdsa.verify(q, new Sha256Hash(z), x, y) + w(q, 0, 24) + w(x, 0, 8) + w(y, 0, 8);
			}
			case 9: return taken(Sha256.getHash(bytes(a[0])));
			case 10: return taken(Sha256.getDoubleHash(bytes(a[0])));
			case 11: return taken(Sha256.getHmac(bytes(a[0]), bytes(a[1])));
			case 12: return taken(Sha512.getHash(bytes(a[0])));
			case 13: return taken(Sha512.getHmac(bytes(a[0]), bytes(a[1])));
			case 14: return taken(Ripemd160.getHash(bytes(a[0])));
			case 15: return taken(Keccak256.getHash(bytes(a[0])));
			case 16: {
				byte[] x = bytes(a[0]); Sha256Hash p = new Sha256Hash(x), q = new Sha256Hash(bytes(a[1])); Arrays.fill(x, (byte)7);
				return taken(p) + "," + p.hashCode() + "," + p.compareTo(q) + "," + p.equals(q) + "," + q.equals(p) + "," + p.equals(q.toString()) + taken(q);
			}
			case 17: { Sha256Hash p = new Sha256Hash(text(a[0])); return taken(p) + p.hashCode(); }
			case 18: return Base58Check.bytesToBase58(bytes(a[0]));
			case 19: return taken(Base58Check.base58ToBytes(text(a[0])));
			case 20: return Bech32.bitGroupsToBech32(text(a[0]), bytes(a[1]));
			case 21: { Object[] x = Bech32.bech32ToBitGroups(text(a[0])); return x[0] + taken((byte[])x[1]); }
			case 22: return Bech32.segwitToBech32(text(a[0]), a[1][0], bytes(a[2]));
			case 23: { Object[] x = Bech32.bech32ToSegwit(text(a[0])); return x[0] + "," + x[1] + taken((byte[])x[2]); }
			case 24: { int[] v = uint(a[0]), u = ints(8); String o = Int256Math.uintToHex(v, 0) + h(Int256Math.uintToBytes(v, 0)); Int256Math.bytesToUint(bytes(a[0]), u, 0); o += w(u, 0, 8); Int256Math.hexToUint(text(a[1]), u, 0); return o + w(u, 0, 8); }
			default: { int[] b = CurvePointMath.getBasePoint(); String o = w(b, 0, 24); Arrays.fill(b, a[0][0]); return o + w(CurvePointMath.getBasePoint(), 0, 24); }
		}
	}
}
