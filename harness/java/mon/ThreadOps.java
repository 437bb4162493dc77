package mon;

import static mon.Gen.*;
import io.nayuki.bitcoin.crypto.*;
import java.math.BigInteger;
import java.util.Arrays;

public final class ThreadOps implements ThreadDriver {
	static final String[] NAMES = {"multiply", "sign", "hmacsign", "verify", "verify-bad", "normalize", "field", "uint", "reciprocal", "sha256", "sha512", "ripemd160", "keccak256", "hmac256", "hmac512", "base58-encode", "base58-decode", "bech32-encode", "bech32-decode", "segwit-encode", "segwit-decode", "hash-value", "hash-text", "base-point", "hex"};
	public int ops() { return NAMES.length; }
	public String name(int op) { return NAMES[op]; }
	/** in: key, nonce, msghash bytes, public key point (words), r, s, message, second key, base58, bech32, segwit, program, scratch point, hash text */
	static Object[] inputs(Rng r, int round) {
		BigInteger d = nonzeroBelow(r, N), k = nonzeroBelow(r, N), z = v256(r);
		Pt q = Pt.G.mul(d);
		BigInteger[] sig = Oracle.sign(d, z, k);
		if (sig == null) { k = TWO; sig = Oracle.sign(d, z, k); if (sig == null) { sig = new BigInteger[]{ONE, ONE}; } }
		int[] pk = new int[24]; put(pk, 0, q.x); put(pk, 8, q.y); pk[16] = 1;
		byte[] msg = r.bytes(r.below(400)), key = r.bytes(r.below(200)), prog = r.bytes(r.chance(1, 2) ? 20 : 32);
		byte[] groups = new byte[r.below(40)];
		for (int i = 0; i < groups.length; i++) groups[i] = (byte)r.below(32);
		return new Object[]{words(d), words(k), be32(z), pk, words(sig[0]), words(sig[1]), msg, key, Oracle.base58(Oracle.withCheck(r.bytes(r.below(50)))), groups, r.below(17), prog, words(below(r, P)), hex(r.bytes(32)), words(below(r, P))};
	}
	public Object share(Object[] in) { return new Sha256Hash((byte[])in[2]); }
	public String run(int op, Object[] in, Object shared, Rng own) {
		int[] d = (int[])in[0], k = (int[])in[1], pk = (int[])in[3], r = (int[])in[4], s = (int[])in[5], f = (int[])in[12], g = (int[])in[14];
		byte[] z = (byte[])in[2], msg = (byte[])in[6], key = (byte[])in[7], groups = (byte[])in[9], prog = (byte[])in[11];
		Sha256Hash h = shared != null ? (Sha256Hash)shared : new Sha256Hash(z);
		switch (op) {
			case 0: {
				int[] v = own.words(32 + CurvePointMath.MULTIPLY_TEMP_WORDS); System.arraycopy(pk, 0, v, 0, 24); System.arraycopy(k, 0, v, 24, 8);
				CurvePointMath.multiply(v, 0, 24, 32); CurvePointMath.normalize(v, 0, 32); return w(v, 0, 24);
			}
			case 1: { int[] a = new int[8], b = new int[8]; boolean ok = Ecdsa.sign(d, h, k, a, b); return ok + w(a, 0, 8) + w(b, 0, 8); }
			case 2: { int[] a = new int[8], b = new int[8]; boolean ok = Ecdsa.signWithHmacNonce(d, h, a, b); return ok + w(a, 0, 8) + w(b, 0, 8); }
			case 3: return "" + Ecdsa.verify(pk, h, r, s);
			case 4: { int[] s2 = s.clone(); s2[3] ^= 4; return "" + Ecdsa.verify(pk, h, r, s2); }
			case 5: {
				int[] v = own.words(24 + CurvePointMath.ADD_TEMP_WORDS + 24); System.arraycopy(pk, 0, v, 0, 24); System.arraycopy(pk, 0, v, 24, 24);
				CurvePointMath.twice(v, 0, 48); CurvePointMath.add(v, 0, 24, 48); int on;
				CurvePointMath.normalize(v, 0, 48); on = CurvePointMath.isOnCurve(v, 0, 48); return on + w(v, 0, 24);
			}
			case 6: {
				int[] v = own.words(24 + Int256Math.FIELD_MULTIPLY_TEMP_WORDS); System.arraycopy(f, 0, v, 0, 8); System.arraycopy(g, 0, v, 8, 8);
				StringBuilder o = new StringBuilder();
				for (int i = 0; i < 40; i++) { Int256Math.fieldMultiply(v, 0, 8, 16, 24); Int256Math.fieldAdd(v, 16, 8, 0, 24); Int256Math.fieldSquare(v, 0, 8, 24); Int256Math.fieldSubtract(v, 8, 16, 8, 24); Int256Math.fieldMultiply2(v, 8, 8, 24); }
				return o + w(v, 0, 24);
			}
			case 7: {
				int[] v = new int[24]; System.arraycopy(d, 0, v, 0, 8); System.arraycopy(k, 0, v, 8, 8); StringBuilder o = new StringBuilder();
				for (int i = 0; i < 20; i++) o.append(Int256Math.uintAdd(v, 0, 8, i & 1, 16)).append(Int256Math.uintSubtract(v, 16, 0, 1, 8)).append(Int256Math.uintShiftLeft1(v, 8, 0)).append(Int256Math.equalTo(v, 0, 8)).append(Int256Math.lessThan(v, 0, 16));
				return o + w(v, 0, 24);
			}
			case 8: { int[] v = own.words(24 + Int256Math.RECIPROCAL_TEMP_WORDS); System.arraycopy(d, 0, v, 0, 8); put(v, 8, N); Int256Math.reciprocal(v, 0, 8, 16, 24); return w(v, 16, 8); }
			case 9: { StringBuilder o = new StringBuilder(); for (int i = 0; i < 20; i++) o.append(Sha256.getHash(Arrays.copyOf(msg, Math.max(0, msg.length - i)))); return o + "" + Sha256.getDoubleHash(msg); }
			case 10: { StringBuilder o = new StringBuilder(); for (int i = 0; i < 20; i++) o.append(hex(Sha512.getHash(Arrays.copyOf(msg, Math.max(0, msg.length - i))))); return o.toString(); }
			case 11: { StringBuilder o = new StringBuilder(); for (int i = 0; i < 20; i++) o.append(hex(Ripemd160.getHash(Arrays.copyOf(msg, Math.max(0, msg.length - i))))); return o.toString(); }
			case 12: { StringBuilder o = new StringBuilder(); for (int i = 0; i < 20; i++) o.append(hex(Keccak256.getHash(Arrays.copyOf(msg, Math.max(0, msg.length - i))))); return o.toString(); }
			case 13: { StringBuilder o = new StringBuilder(); for (int i = 0; i < 10; i++) o.append(Sha256.getHmac(key, msg)); return o.toString(); }
			case 14: { StringBuilder o = new StringBuilder(); for (int i = 0; i < 10; i++) o.append(hex(Sha512.getHmac(key, msg))); return o.toString(); }
			case 15: { StringBuilder o = new StringBuilder(); for (int i = 0; i < 10; i++) o.append(Base58Check.bytesToBase58(Arrays.copyOf(key, Math.min(key.length, 20 + i)))); return o.toString(); }
			case 16: { String t = (String)in[8]; StringBuilder o = new StringBuilder(); for (int i = 0; i < 10; i++) o.append(hex(Base58Check.base58ToBytes(t))); try { Base58Check.base58ToBytes(t + "2"); o.append("accepted"); } catch (IllegalArgumentException e) { o.append("refused"); } return o.toString(); }
			case 17: { StringBuilder o = new StringBuilder(); for (int i = 0; i < 10; i++) o.append(Bech32.bitGroupsToBech32("abc" + i, groups)); return o.toString(); }
			case 18: {
				StringBuilder o = new StringBuilder();
				for (int i = 0; i < 10; i++) { Object[] x = Bech32.bech32ToBitGroups(Bech32.bitGroupsToBech32("k" + i, groups)); o.append(x[0]).append(hex((byte[])x[1])); }
				return o.toString();
			}
			case 19: { StringBuilder o = new StringBuilder(); for (int i = 0; i < 10; i++) o.append(Bech32.segwitToBech32(i % 2 == 0 ? "bc" : "tb", i % 3 == 0 ? 0 : (Integer)in[10], prog)); return o.toString(); }
			case 20: { StringBuilder o = new StringBuilder(); for (int i = 0; i < 10; i++) { Object[] x = Bech32.bech32ToSegwit(Bech32.segwitToBech32("tb", (Integer)in[10], prog)); o.append(x[0]).append(x[1]).append(hex((byte[])x[2])); } return o.toString(); }
			case 21: { Sha256Hash b = new Sha256Hash(z); return "" + h.equals(b) + h.hashCode() + h.compareTo(b) + h + hex(h.toBytes()); }
			case 22: { StringBuilder o = new StringBuilder(); for (int i = 0; i < 10; i++) o.append(new Sha256Hash((String)in[13])); return o.toString(); }
			case 23: {
				int[] b = CurvePointMath.getBasePoint(); String t = w(b, 0, 24); Arrays.fill(b, own.u32());   // a caller may scribble on its copy
				return t + w(CurvePointMath.getBasePoint(), 0, 24);
			}
			default: { int[] v = new int[8]; Int256Math.hexToUint((String)in[13], v, 0); return Int256Math.uintToHex(v, 0) + hex(Int256Math.uintToBytes(v, 0)); }
		}
	}
	static String w(int[] v, int o, int n) { StringBuilder b = new StringBuilder(","); for (int i = o; i < o + n; i++) b.append(String.format("%08x", v[i])); return b.toString(); }
}
