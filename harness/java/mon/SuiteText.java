package mon;

import static mon.Gen.*;
import io.nayuki.bitcoin.crypto.*;
import java.util.Arrays;

/** Base58Check, Bech32 and segwit texts: exact encoding, and acceptance of exactly the valid strings. */
final class SuiteText {
	static void register() { Mon.SUITES.put("jlongbase58", SuiteText::longBase58); Mon.SUITES.put("jbase58", SuiteText::base58); Mon.SUITES.put("jbech32", SuiteText::bech32); Mon.SUITES.put("jsegwit", SuiteText::segwit); }
	static String q(String s) { StringBuilder o = new StringBuilder("\""); for (int i = 0; i < Math.min(s.length(), 300); i++) { char ch = s.charAt(i); if (ch < 32 || ch > 126) o.append(String.format("\\u%04x", (int)ch)); else o.append(ch); } return o.append(s.length() > 300 ? "...\"(" + s.length() + ")" : "\"").toString(); }
	static final String ODD = "0OIl+/ \t\n-_.1zZaA\u0000\u007f\u00e9\u0130\u0131\u017f\u212a\uff11\ud83d\u0661";
	static String replaceAt(String s, int i, char ch) { return s.substring(0, i) + ch + s.substring(i + 1); }

	/*---- Base58Check ----*/
	static void decode58(Ctx c, String s, String kind) {
		byte[] raw = Oracle.unbase58(s), want = null;
		if (raw != null && raw.length >= 4) { byte[] d = Arrays.copyOf(raw, raw.length - 4); if (Arrays.equals(Oracle.withCheck(d), raw)) want = d; }
		c.note(kind + " " + q(s)); c.nontrivial();
		c.hit((want != null ? "accept." : "reject.") + kind);
		if (want == null) c.rejects(IllegalArgumentException.class, "base58ToBytes", () -> Base58Check.base58ToBytes(s));
		else { byte[] g = Base58Check.base58ToBytes(s); c.check(Arrays.equals(g, want), "base58ToBytes gave %s, expected %s", hex(g), hex(want)); }
	}
	/** Long arrays, long runs of leading zeros. */
	static void longBase58(Ctx c) {
		Rng r = c.rng;
		int e = 7 + (int)(c.idx % 7), n = (1 << e) + r.below(1 << e), z = r.chance(1, 2) ? r.below(n + 1) : r.chance(1, 2) ? 255 + r.below(3) : 0;
		byte[] d = SuiteHash.fill(r, n);
		for (int i = 0; i < z && i < n; i++) d[i] = 0;
		c.note("length " + n + " zeros " + z + " data " + hexShort(d)); c.nontrivial();
		String want = Oracle.base58(Oracle.withCheck(d)), got = Base58Check.bytesToBase58(d);
		c.check(got.equals(want), "bytesToBase58 gave %s, expected %s", got, want);
		c.hit("long.2^" + e + (z > 0 ? ".zeros" : ""));
		decode58(c, want, "long");
		decode58(c, replaceAt(want, r.below(want.length()), Oracle.B58.charAt(r.below(58))), "long-altered");
	}
	static void base58(Ctx c) {
		Rng r = c.rng;
		int n; switch (r.below(8)) { case 0: n = r.below(6); break; case 1: n = 21; break; case 2: n = 33 + r.below(2); break; case 3: n = 78; break; case 4: n = r.chance(1, 30) ? 400 + r.below(1500) : r.below(121); break; default: n = r.below(60); }
		if (c.idx < 121) n = (int)c.idx;
		byte[] d = SuiteHash.fill(r, n);
		if (r.chance(1, 3)) { int z = r.below(n + 1); for (int i = 0; i < Math.min(z, r.chance(1, 2) ? 3 : 60); i++) d[i] = 0; }
		if (r.chance(1, 4) && n > 0) { int i = r.below(n); d[i] = (byte)(r.chance(1, 2) ? 0x80 : 0xFF); }
		byte[] keep = d.clone();
		c.note("data " + hex(d)); c.nontrivial();
		String want = Oracle.base58(Oracle.withCheck(d)), got = Base58Check.bytesToBase58(d);
		c.check(got.equals(want), "bytesToBase58 gave %s, expected %s", got, want);
		c.check(Arrays.equals(d, keep), "encoding changed its argument");
		c.hit(n > 0 && d[0] == 0 ? "encode.leading-zero" : n > 0 && d[0] < 0 ? "encode.top-bit" : "encode.plain");
		decode58(c, want, "valid");
		byte[] back = Base58Check.base58ToBytes(want);
		if (back.length > 0) { back[0] ^= 1; c.check(Arrays.equals(Base58Check.base58ToBytes(want), keep), "a returned array is shared"); }
		byte[] full = Oracle.withCheck(d);
		for (int k = 0; k < 3; k++) {
			String s; String kind;
			switch (r.below(13)) {
				case 0: s = replaceAt(want, r.below(want.length()), Oracle.B58.charAt(r.below(58))); kind = "altered-char"; break;
				case 1: s = replaceAt(want, r.below(want.length()), ODD.charAt(r.below(ODD.length()))); kind = "foreign-char"; break;
				case 2: { int i = r.below(want.length()); s = want.substring(0, i) + want.substring(i + 1); kind = "dropped-char"; break; }
				case 3: { int i = r.below(want.length() + 1); s = want.substring(0, i) + (r.chance(1, 2) ? '1' : Oracle.B58.charAt(r.below(58))) + want.substring(i); kind = "added-char"; break; }
				case 4: { byte[] f = full.clone(); f[f.length - 1 - r.below(4)] ^= 1 << r.below(8); s = Oracle.base58(f); kind = "checksum-bit"; break; }
				case 5: { byte[] f = full.clone(); f[r.below(f.length)] ^= 1 << r.below(8); s = Oracle.base58(f); kind = "any-bit"; break; }
				case 6: s = r.chance(1, 2) ? "1" + want : want.startsWith("1") ? want.substring(1) : "11" + want; kind = "leading-ones"; break;
				case 7: { int m = r.below(8); StringBuilder b = new StringBuilder(); for (int i = 0; i < m; i++) b.append(r.chance(1, 3) ? '1' : Oracle.B58.charAt(r.below(58))); s = b.toString(); kind = "short"; break; }
				case 8: { byte[] f = full.clone(); for (int i = 0; i < 4; i++) f[f.length - 4 + i] = full[full.length - 1 - i]; s = Oracle.base58(f); kind = "checksum-reversed"; break; }
				case 9: { byte[] f = Arrays.copyOf(d, n + 4); System.arraycopy(Oracle.sha256(d), 0, f, n, 4); s = Oracle.base58(f); kind = "single-hash-checksum"; break; }
				case 10: s = r.chance(1, 2) ? " " + want : want + (r.chance(1, 2) ? " " : "\n"); kind = "whitespace"; break;
				case 11: { byte[] f = full.clone(); byte[] o = new byte[4]; for (int i = 0; i < 4; i++) f[f.length - 4 + i] = r.chance(1, 2) ? (byte)0 : f[f.length - 4 + i]; s = Oracle.base58(f); kind = "checksum-zeroed"; break; }
				default: { byte[] e = SuiteHash.fill(r, r.below(40)); s = Oracle.base58(Oracle.withCheck(e)); kind = "other-valid"; }
			}
			decode58(c, s, kind);
		}
	}

	/*---- Bech32 ----*/
	static String hrp(Rng r, int max) {
		switch (r.below(5)) { case 0: return "bc"; case 1: return "tb"; }
		int n = 1 + r.below(Math.max(1, Math.min(max, r.chance(1, 3) ? 83 : 12)));
		StringBuilder b = new StringBuilder();
		for (int i = 0; i < n; i++) { char ch; do ch = (char)(r.chance(1, 12) ? '1' : r.chance(1, 2) ? 'a' + r.below(26) : 33 + r.below(94)); while (ch >= 'A' && ch <= 'Z'); b.append(ch); }
		return b.toString();
	}
	static byte[] groups(Rng r, int n) { byte[] g = new byte[n]; int mode = r.below(4); for (int i = 0; i < n; i++) g[i] = (byte)(mode == 0 ? 0 : mode == 1 ? 31 : r.below(32)); return g; }
	static int[] ints(byte[] b) { int[] v = new int[b.length]; for (int i = 0; i < v.length; i++) v[i] = b[i]; return v; }
	static byte[] bytes(int[] v) { byte[] b = new byte[v.length]; for (int i = 0; i < v.length; i++) b[i] = (byte)v[i]; return b; }
	static void decode32(Ctx c, String s, String kind) {
		Object[] want = Oracle.unbech32(s);
		c.note(kind + " " + q(s)); c.nontrivial();
		c.hit((want != null ? "accept." : "reject.") + kind);
		if (want == null) { c.rejects(IllegalArgumentException.class, "bech32ToBitGroups", () -> Bech32.bech32ToBitGroups(s)); return; }
		Object[] g = Bech32.bech32ToBitGroups(s);
		c.check(g.length == 2 && want[0].equals(g[0]), "human-readable part %s, expected %s", g[0], want[0]);
		c.check(Arrays.equals((byte[])g[1], bytes((int[])want[1])), "groups %s, expected %s", hex((byte[])g[1]), hex(bytes((int[])want[1])));
	}
	static String mutate(Rng r, String s, String[] kind) {
		switch (r.below(12)) {
			case 0: kind[0] = "altered-char"; return replaceAt(s, r.below(s.length()), Oracle.B32.charAt(r.below(32)));
			case 1: kind[0] = "foreign-char"; return replaceAt(s, r.below(s.length()), (ODD + "bio1").charAt(r.below(ODD.length() + 4)));
			case 2: { kind[0] = "dropped-char"; int i = r.below(s.length()); return s.substring(0, i) + s.substring(i + 1); }
			case 3: { kind[0] = "added-char"; int i = r.below(s.length() + 1); return s.substring(0, i) + Oracle.B32.charAt(r.below(32)) + s.substring(i); }
			case 4: kind[0] = "upper"; return upper(s);
			case 5: case 6: { kind[0] = "mixed-case"; int i = r.below(s.length()); for (int t = 0; t < 90 && !Character.isLetter(s.charAt(i)); t++) i = (i + 1) % s.length(); String u = r.chance(1, 2) ? s : upper(s); char ch = u.charAt(i); return replaceAt(u, i, ch >= 'a' && ch <= 'z' ? (char)(ch - 32) : ch >= 'A' && ch <= 'Z' ? (char)(ch + 32) : ch); }
			case 7: { kind[0] = "half-upper"; int i = s.lastIndexOf('1'); return r.chance(1, 2) ? upper(s.substring(0, i)) + s.substring(i) : s.substring(0, i) + upper(s.substring(i)); }
			case 8: { kind[0] = "swapped"; int i = r.below(s.length() - 1); return s.substring(0, i) + s.charAt(i + 1) + s.charAt(i) + s.substring(i + 2); }
			case 9: { kind[0] = "checksum-char"; int i = s.length() - 1 - r.below(6); return replaceAt(s, i, Oracle.B32.charAt(Oracle.B32.indexOf(Character.toLowerCase(s.charAt(i))) ^ (1 << r.below(5)))); }
			case 10: { kind[0] = "no-separator"; return s.replace("1", r.chance(1, 2) ? "" : "q"); }
			default: { kind[0] = "cut"; return s.substring(0, r.below(s.length())); }
		}
	}
	static String upper(String s) { StringBuilder b = new StringBuilder(); for (int i = 0; i < s.length(); i++) { char ch = s.charAt(i); b.append(ch >= 'a' && ch <= 'z' ? (char)(ch - 32) : ch); } return b.toString(); }
	/** A string that carries a correct checksum for any constant, part and groups. */
	static String forged(String h, int[] d, int constant) {
		int[] rem = Oracle.bechRemainder(Oracle.bechValues(h, d, 6));
		StringBuilder sb = new StringBuilder(h).append('1');
		for (int v : d) sb.append(Oracle.B32.charAt(v & 31));
		for (int i = 0; i < 6; i++) sb.append(Oracle.B32.charAt((rem[i] ^ (constant >>> (5 * (5 - i)))) & 31));
		return sb.toString();
	}
	static void bech32(Ctx c) {
		Rng r = c.rng;
		String h = hrp(r, 83);
		int room = 83 - h.length(), n = r.chance(1, 4) ? room - r.below(2) : r.below(Math.max(1, room + 1));
		n = Math.max(0, n);
		byte[] d = groups(r, n), keep = d.clone();
		c.note("part " + q(h) + " groups " + hex(d)); c.nontrivial();
		String want = Oracle.bech32(h, ints(d)), got = Bech32.bitGroupsToBech32(h, d);
		c.check(got.equals(want), "bitGroupsToBech32 gave %s, expected %s", got, want);
		c.check(Arrays.equals(d, keep), "encoding changed its argument");
		c.hit("encode.total" + (want.length() >= 89 ? want.length() : ""));
		decode32(c, want, "valid");
		for (int k = 0; k < 3; k++) { String[] kind = {""}; String s = mutate(r, want, kind); decode32(c, s, kind[0]); }
		// correct checksums over invalid parts, lengths or groups
		String s, kind;
		switch (r.below(9)) {
			case 0: s = forged("", ints(d), 1); kind = "forged.empty-part"; break;
			case 1: { StringBuilder b = new StringBuilder(h); b.setCharAt(r.below(h.length()), "\u0000 \u001f\u007f\u0080\u00ff\u0131\uff41".charAt(r.below(8))); s = forged(b.toString(), ints(d), 1); kind = "forged.part-char"; break; }
			case 2: { StringBuilder b = new StringBuilder(h); while (b.length() + 1 + n + 6 < 91 + r.below(3)) b.append('a'); s = forged(b.toString(), ints(d), 1); kind = "forged.too-long"; break; }
			case 3: { int m = 84 - h.length() + r.below(4); s = forged(h, ints(groups(r, Math.max(0, m))), 1); kind = "forged.too-long"; break; }
			case 4: s = forged(h, ints(d), 0x2BC830A3); kind = "forged.bech32m"; break;
			case 5: s = forged(h, ints(d), 1 ^ (1 << r.below(30))); kind = "forged.constant-bit"; break;
			case 6: s = forged(h, ints(d), r.chance(1, 2) ? 0 : r.u32()); kind = "forged.constant"; break;
			case 7: s = forged(upper(h), ints(d), 1); kind = "forged.upper-part"; break;
			default: { StringBuilder b = new StringBuilder(); int m = 82 + r.below(4); for (int i = 0; i < m; i++) b.append('x'); s = forged(b.toString(), new int[0], 1); kind = "forged.long-part"; }
		}
		decode32(c, s, kind);
		if (c.idx % 3 == 0) {   // encoder rejections
			String bh = h; byte[] bd = d; Class<? extends Throwable> ex = IllegalArgumentException.class; String what;
			switch (r.below(7)) {
				case 0: bh = ""; what = "empty part"; break;
				case 1: { StringBuilder b = new StringBuilder(h); b.setCharAt(r.below(h.length()), (char)('A' + r.below(26))); bh = b.toString(); what = "upper-case part"; break; }
				case 2: { StringBuilder b = new StringBuilder(h); b.setCharAt(r.below(h.length()), "\u0000 \u001f\u007f\u0080\u00ff\u0131\uff41".charAt(r.below(8))); bh = b.toString(); what = "part with foreign character"; break; }
				case 3: { bd = groups(r, Math.max(1, n)); bd[r.below(bd.length)] = (byte)new int[]{32, 33, 64, 127, -1, -128, -32}[r.below(7)]; bh = r.chance(1, 2) ? "bc" : h; what = "group out of range"; break; }
				case 4: { bd = groups(r, 84 - h.length() + r.below(3)); what = "too long"; break; }
				case 5: { StringBuilder b = new StringBuilder(); for (int i = 0; i < 84 + r.below(3); i++) b.append('x'); bh = b.toString(); bd = new byte[0]; what = "part too long"; break; }
				default: ex = NullPointerException.class; if (r.chance(1, 2)) bh = null; else bd = null; what = "null";
			}
			final String fh = bh; final byte[] fd = bd;
			c.note("encode " + what + " part " + (fh == null ? "null" : q(fh)) + " groups " + (fd == null ? "null" : hex(fd))); c.nontrivial(); c.hit("encode-reject." + what);
			c.rejects(ex, "bitGroupsToBech32", () -> Bech32.bitGroupsToBech32(fh, fd));
			if (c.idx % 96 == 0) c.rejects(NullPointerException.class, "bech32ToBitGroups(null)", () -> Bech32.bech32ToBitGroups(null));
		}
	}

	/*---- Segregated witness ----*/
	static void decodeSw(Ctx c, String s, String kind) {
		Object[] b = Oracle.unbech32(s), want = b == null ? null : Oracle.unsegwit((int[])b[1]);
		c.note(kind + " " + q(s)); c.nontrivial();
		c.hit((want != null ? "accept." : "reject.") + kind);
		if (want == null) { c.rejects(IllegalArgumentException.class, "bech32ToSegwit", () -> Bech32.bech32ToSegwit(s)); return; }
		Object[] g = Bech32.bech32ToSegwit(s);
		c.check(g.length == 3 && b[0].equals(g[0]) && want[0].equals(g[1]), "part %s version %s, expected %s %s", g[0], g[1], b[0], want[0]);
		c.check(Arrays.equals((byte[])g[2], (byte[])want[1]), "program %s, expected %s", hex((byte[])g[2]), hex((byte[])want[1]));
		String again = Bech32.segwitToBech32((String)g[0], (Integer)g[1], (byte[])g[2]);
		StringBuilder low = new StringBuilder(); for (int i = 0; i < s.length(); i++) { char ch = s.charAt(i); low.append(ch >= 'A' && ch <= 'Z' ? (char)(ch + 32) : ch); }
		c.check(again.equals(low.toString()), "re-encoding gives %s", again);
	}
	static void segwit(Ctx c) {
		Rng r = c.rng;
		int len = c.idx < 39 ? 2 + (int)c.idx : r.chance(1, 2) ? new int[]{2, 20, 32, 40}[r.below(4)] : 2 + r.below(39), ver = r.chance(1, 2) ? r.below(17) : r.chance(1, 2) ? 0 : 16;
		byte[] p = SuiteHash.fill(r, len), keep = p.clone();
		int[] g = Oracle.segwitGroups(ver, p);
		String h = hrp(r, Math.max(1, 83 - g.length));
		if (h.length() + g.length > 83) h = "bc";
		if (r.chance(1, 6)) { StringBuilder b = new StringBuilder(h); while (b.length() + g.length < 83) b.append('x'); h = b.toString(); }
		c.note("part " + q(h) + " version " + ver + " program " + hex(p)); c.nontrivial();
		String want = Oracle.bech32(h, g), got = Bech32.segwitToBech32(h, ver, p);
		c.check(got.equals(want), "segwitToBech32 gave %s, expected %s", got, want);
		c.check(Arrays.equals(p, keep), "encoding changed its argument");
		c.hit("encode.padding" + (g.length - 1) * 5 % 8);
		decodeSw(c, want, "valid");
		{ String[] kind = {""}; String s = mutate(r, want, kind); decodeSw(c, s, kind[0]); }
		h = r.chance(1, 3) ? "tb" : "bc";
		for (int k = 0; k < 3; k++) {
			int[] f; String kind;
			switch (r.below(10)) {
				case 0: { f = g.clone(); int pad = (g.length - 1) * 5 - len * 8; if (pad > 0) f[f.length - 1] |= 1 << r.below(pad); kind = "padding-bit"; break; }
				case 1: f = Arrays.copyOf(g, g.length + 1); kind = "extra-zero-group"; break;
				case 2: f = Arrays.copyOf(g, g.length + 1); f[g.length] = 1 + r.below(31); kind = "extra-group"; break;
				case 3: f = Arrays.copyOf(g, g.length - 1); kind = "missing-group"; break;
				case 4: f = g.clone(); f[0] = 17 + r.below(15); kind = "version"; break;
				case 5: { int n = r.below(8); f = new int[n]; for (int i = 0; i < n; i++) f[i] = r.chance(1, 2) ? 0 : r.below(17); kind = "few-groups"; break; }
				case 6: { byte[] q = SuiteHash.fill(r, 41 + r.below(4)); f = Oracle.segwitGroups(ver, q); kind = "long-program"; break; }
				case 7: { byte[] q = SuiteHash.fill(r, r.below(3)); f = Oracle.segwitGroups(ver, q); kind = "short-program"; break; }
				case 8: { int n = 1 + r.below(75); f = new int[n]; f[0] = r.below(17); for (int i = 1; i < n; i++) f[i] = r.below(32); if (n > 1 && r.chance(3, 4)) f[n - 1] = r.chance(1, 2) ? 0 : f[n - 1] & 16; kind = "any-groups"; break; }
				default: f = Arrays.copyOf(g, g.length + 2 + r.below(7)); kind = "many-extra-groups";
			}
			decodeSw(c, forged(h, f, 1), kind);
		}
		if (c.idx % 3 == 0) {
			String bh = "bc"; int bv = ver; byte[] bp = p; Class<? extends Throwable> ex = IllegalArgumentException.class; String what;
			switch (r.below(6)) {
				case 0: bv = new int[]{-1, 17, 18, 31, 32, 255, 256, Integer.MIN_VALUE, Integer.MAX_VALUE, 33, -32}[r.below(11)]; what = "version"; break;
				case 1: bp = SuiteHash.fill(r, r.below(2)); what = "short program"; break;
				case 2: bp = SuiteHash.fill(r, 41 + (r.chance(1, 2) ? 0 : r.below(40))); what = "long program"; break;
				case 3: { StringBuilder b = new StringBuilder("x"); while (b.length() + g.length < 84 + r.below(2)) b.append('x'); bh = b.toString(); what = "too long"; break; }
				case 4: bh = r.chance(1, 2) ? "" : "BC"; what = "part"; break;
				default: ex = NullPointerException.class; if (r.chance(1, 2)) bh = null; else bp = null; what = "null";
			}
			final String fh = bh; final byte[] fp = bp; final int fv = bv;
			c.note("encode " + what + " part " + fh + " version " + fv + " program " + (fp == null ? "null" : hex(fp))); c.nontrivial(); c.hit("encode-reject." + what);
			c.rejects(ex, "segwitToBech32", () -> Bech32.segwitToBech32(fh, fv, fp));
			if (c.idx % 96 == 0) c.rejects(NullPointerException.class, "bech32ToSegwit(null)", () -> Bech32.bech32ToSegwit(null));
		}
	}
}
