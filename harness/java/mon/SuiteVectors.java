package mon;

import static mon.Gen.*;
import io.nayuki.bitcoin.crypto.*;
import java.math.BigInteger;
import java.nio.file.*;
import java.util.*;

/** Offline checker: re-executes in Java the calls recorded by the C++ library and compares the results. */
final class SuiteVectors {
	static String path;
	static List<String> lines;
	static void register() { Mon.SUITES.put("jvectors", SuiteVectors::replay); }
	static byte[] unhex(String s) { if (s.equals("-")) return new byte[0]; byte[] b = new byte[s.length() / 2]; for (int i = 0; i < b.length; i++) b[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16); return b; }
	static BigInteger z(String s) { return new BigInteger(s, 16); }
	static String h(byte[] b) { return b.length == 0 ? "-" : hex(b); }
	static int[] point(String a, String b, String d) { int[] v = new int[24]; put(v, 0, z(a)); put(v, 8, z(b)); put(v, 16, z(d)); return v; }
	static String show(int[] v, int o) { return hex(get(v, o)) + "," + hex(get(v, o + 8)) + "," + hex(get(v, o + 16)); }
	static void replay(Ctx c) throws Exception {
		if (lines == null) lines = Files.readAllLines(Paths.get(path), java.nio.charset.StandardCharsets.ISO_8859_1);
		String line = lines.get((int)c.idx);
		c.note(Mon.cut(line, 3000)); c.nontrivial(line);
		int e = line.indexOf(" = ");
		String[] f = line.substring(0, e).split(" ");
		String want = line.substring(e + 3), got = run(f);
		c.hit("replayed." + f[1]);
		c.check(got.equals(want), "C++ recorded %s but Java gives %s", Mon.cut(want, 400), Mon.cut(got, 400));
	}
	static String run(String[] f) {
		switch (f[1]) {
			case "sha256": return h(Sha256.getHash(unhex(f[2])).toBytes());
			case "sha256d": return h(Sha256.getDoubleHash(unhex(f[2])).toBytes());
			case "sha512": return h(Sha512.getHash(unhex(f[2])));
			case "ripemd160": return h(Ripemd160.getHash(unhex(f[2])));
			case "keccak256": return h(Keccak256.getHash(unhex(f[2])));
			case "hmac256": return h(Sha256.getHmac(unhex(f[2]), unhex(f[3])).toBytes());
			case "hmac512": return h(Sha512.getHmac(unhex(f[2]), unhex(f[3])));
			case "hashtext": return new Sha256Hash(f[2]).toString() + "," + h(new Sha256Hash(f[2]).toBytes());
			case "uint": {
				int[] v = new int[24]; BigInteger a = z(f[2]), b = z(f[3]); int en = Integer.parseInt(f[4]);
				StringBuilder o = new StringBuilder();
				put(v, 0, a); put(v, 8, b); o.append(Int256Math.uintAdd(v, 0, 8, en, 16)).append(hex(get(v, 16)));
				o.append(',').append(Int256Math.uintSubtract(v, 0, 8, en, 16)).append(hex(get(v, 16)));
				o.append(',').append(Int256Math.uintShiftLeft1(v, 0, 16)).append(hex(get(v, 16)));
				Int256Math.uintShiftRight1(v, 0, en, 16); o.append(',').append(hex(get(v, 16)));
				o.append(',').append(Int256Math.equalTo(v, 0, 8)).append(Int256Math.lessThan(v, 0, 8)).append(Int256Math.lessThan(v, 8, 0));
				return o.toString();
			}
			case "recip": { int[] v = new int[24 + Int256Math.RECIPROCAL_TEMP_WORDS]; put(v, 0, z(f[2])); put(v, 8, z(f[3])); Int256Math.reciprocal(v, 0, 8, 16, 24); return hex(get(v, 16)); }
			case "field": {
				int[] v = new int[24 + Int256Math.FIELD_MULTIPLY_TEMP_WORDS]; put(v, 0, z(f[2])); put(v, 8, z(f[3]));
				StringBuilder o = new StringBuilder();
				Int256Math.fieldAdd(v, 0, 8, 16, 24); o.append(hex(get(v, 16)));
				Int256Math.fieldSubtract(v, 0, 8, 16, 24); o.append(',').append(hex(get(v, 16)));
				Int256Math.fieldMultiply2(v, 0, 16, 24); o.append(',').append(hex(get(v, 16)));
				Int256Math.fieldMultiply(v, 0, 8, 16, 24); o.append(',').append(hex(get(v, 16)));
				Int256Math.fieldSquare(v, 0, 16, 24); o.append(',').append(hex(get(v, 16)));
				return o.toString();
			}
			case "addnorm": {
				int[] v = Arrays.copyOf(point(f[2], f[3], f[4]), 48 + CurvePointMath.ADD_TEMP_WORDS); System.arraycopy(point(f[5], f[6], f[7]), 0, v, 24, 24);
				CurvePointMath.add(v, 0, 24, 48); CurvePointMath.normalize(v, 0, 48); return show(v, 0);
			}
			case "mulnorm": {
				int[] v = Arrays.copyOf(point(f[2], f[3], f[4]), 32 + CurvePointMath.MULTIPLY_TEMP_WORDS); put(v, 24, z(f[5]));
				CurvePointMath.multiply(v, 0, 24, 32); CurvePointMath.normalize(v, 0, 32); return show(v, 0);
			}
			case "pubkey": {   // compressed form computed from the Java base point multiple
				int[] v = Arrays.copyOf(CurvePointMath.getBasePoint(), 32 + CurvePointMath.MULTIPLY_TEMP_WORDS); put(v, 24, z(f[2]));
				CurvePointMath.multiply(v, 0, 24, 32); CurvePointMath.normalize(v, 0, 32);
				return String.format("%02x", 2 + (v[8] & 1)) + hex(Int256Math.uintToBytes(v, 0));
			}
			case "sign": { int[] r = new int[8], s = new int[8]; boolean ok = Ecdsa.sign(words(z(f[2])), new Sha256Hash(unhex(f[3])), words(z(f[4])), r, s); return ok + "," + hex(get(r, 0)) + "," + hex(get(s, 0)); }
			case "hmacsign": { int[] r = new int[8], s = new int[8]; boolean ok = Ecdsa.signWithHmacNonce(words(z(f[2])), new Sha256Hash(unhex(f[3])), r, s); return ok + "," + hex(get(r, 0)) + "," + hex(get(s, 0)); }
			case "verify": return "" + Ecdsa.verify(point(f[2], f[3], f[4]), new Sha256Hash(unhex(f[5])), words(z(f[6])), words(z(f[7])));
			case "b58enc": return Base58Check.bytesToBase58(unhex(f[2]));
			case "b58dec": {   // a fixed payload length that C++ accepts or refuses
				byte[] b; try { b = Base58Check.base58ToBytes(f[3].equals("-") ? "" : f[3]); } catch (IllegalArgumentException x) { return "reject"; }
				if (b.length != Integer.parseInt(f[2])) return "reject";
				if (f.length > 4 && !hex(b).endsWith(f[4])) return "reject";   // the suffix the C++ form mandates
				return hex(b);
			}
		}
		throw new IllegalStateException("unknown record " + f[1]);
	}
}
