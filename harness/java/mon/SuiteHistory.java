package mon;

import static mon.Gen.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.*;

/** Dependence on anything but the arguments: histories of related calls in one copy of the library, under changing default locale, time zone and interrupt status, against the same call in a copy that has made no other. */
final class SuiteHistory {
	static void register() { Mon.SUITES.put("jhistory", SuiteHistory::run); }
	static final String[] LOCALES = {"", "en-US", "tr-TR", "az", "lt", "ar-EG-u-nu-arab", "fa-IR-u-nu-arabext", "th-TH-u-nu-thai-ca-buddhist", "hi-IN-u-nu-deva", "de-CH", "el-GR", "zh-TW"};
	static final Locale START = Locale.getDefault(); static final TimeZone ZONE = TimeZone.getDefault();
	static final int N_OPS = HistoryOps.NAMES.length;
	static final int[] HEAVY = {3, 5, 6, 7, 8};   // operations whose first run in a new copy is slow
	static HistoryDriver old;
	static HistoryDriver fresh() throws Exception { return (HistoryDriver)new Instrument(0, "mon.HistoryOps").loadClass("mon.HistoryOps").getConstructor().newInstance(); }

	final Rng r; final List<List<byte[]>> pools = new ArrayList<>();
	SuiteHistory(Rng r) { this.r = r; for (int i = 0; i < 128; i++) pools.add(new ArrayList<>()); }
	static byte[] utf(String s) { return s.getBytes(StandardCharsets.UTF_8); }
	static String str(byte[] b) { return new String(b, StandardCharsets.UTF_8); }
	static final String B32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l", B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
	byte[] pack(Pt p) { BigInteger s = r.chance(1, 2) ? ONE : nonzeroBelow(r, P); byte[] o = new byte[96]; BigInteger[] c = p.inf() ? new BigInteger[]{ZERO, s, ZERO} : new BigInteger[]{p.x.multiply(s).mod(P), p.y.multiply(s).mod(P), s}; for (int i = 0; i < 3; i++) System.arraycopy(be32(c[i]), 0, o, 32 * i, 32); return o; }
	static BigInteger big(byte[] b, int off) { return new BigInteger(1, Arrays.copyOfRange(b, off, off + 32)); }
	static Pt unpack(byte[] b) { BigInteger z = big(b, 64); if (z.signum() == 0) return Pt.INF; BigInteger i = z.modInverse(P); return new Pt(big(b, 0).multiply(i).mod(P), big(b, 32).multiply(i).mod(P)); }
	String hrp() {
		switch (r.below(4)) {
			case 0: return r.chance(1, 2) ? "bc" : "tb";
			case 1: return r.chance(1, 2) ? "bitcoin" : "limit1i";
			default: { StringBuilder s = new StringBuilder(); for (int n = 1 + r.below(12); n > 0; n--) s.append(r.chance(1, 4) ? 'i' : (char)('a' + r.below(26))); return s.toString(); }
		}
	}
	int[] groups(int n) { int[] g = new int[n]; for (int i = 0; i < n; i++) g[i] = r.below(32); return g; }
	String cased(String s) { return r.chance(1, 2) ? s : s.toUpperCase(Locale.ROOT); }
	byte[] fresh(char k) {
		switch (k) {
			case 's': return be32(nonzeroBelow(r, N));
			case 'v': return be32(v256(r));
			case 'f': return be32(below(r, P));
			case 'h': return r.bytes(32);
			case 'b': return new byte[]{(byte)(r.chance(1, 2) ? r.below(17) : r.u32())};
			case 'p': return pack(r.chance(1, 8) ? Pt.INF : Pt.gen(r));
			case 'm': case 'k': { int[] l = {0, 1, 32, 33, 55, 56, 63, 64, 65, 80, 111, 112, 127, 128, 129, 135, 136, 137, 200, 272}; return r.bytes(r.chance(1, 2) ? l[r.below(l.length)] : r.below(300)); }
			case 'd': { byte[] b = r.bytes(r.below(60)); for (int i = 0; i < b.length && i < r.below(5); i++) b[i] = 0; return b; }
			case 't': { char[] s = hex(r.bytes(32)).toCharArray(); for (int i = 0; i < 64; i++) if (r.chance(1, 3)) s[i] = Character.toUpperCase(s[i]); return utf(new String(s)); }
			case 'a': return utf(Oracle.base58(Oracle.withCheck(fresh('d'))));
			case 'g': { byte[] g = new byte[r.below(50)]; for (int i = 0; i < g.length; i++) g[i] = (byte)r.below(32); return g; }
			case 'r': return utf(hrp());
			case 'e': return utf(cased(Oracle.bech32(hrp(), groups(r.below(50)))));
			case 'w': return r.bytes(r.chance(1, 2) ? r.chance(1, 2) ? 20 : 32 : 2 + r.below(39));
			default: return utf(cased(Oracle.bech32(r.chance(1, 2) ? "bc" : "tb", Oracle.segwitGroups(r.below(17), r.bytes(r.chance(1, 2) ? 20 : 32)))));
		}
	}
	byte[] mutate(byte[] in) {
		byte[] b = in.clone(); int n = b.length;
		if (n == 0) return r.bytes(1);
		switch (r.below(12)) {
			case 0: b[0] ^= 1 << r.below(8); break;
			case 1: b[n - 1] ^= 1 << r.below(8); break;
			case 2: b[r.below(n)] ^= 1 + r.below(255); break;
			case 3: { int i = r.below(n), j = r.below(n); byte t = b[i]; b[i] = b[j]; b[j] = t; break; }              // same bytes in another order
			case 4: for (int i = 0; i < n / 2; i++) b[i] = (byte)r.u32(); break;
			case 5: for (int i = n / 2; i < n; i++) b[i] = (byte)r.u32(); break;
			case 6: for (int i = 0; i < n / 2; i++) { byte t = b[i]; b[i] = b[n - 1 - i]; b[n - 1 - i] = t; } break;
			case 7: for (int i = 0; i < n && i < 8; i++) b[i] = (byte)r.u32(); break;
			case 8: for (int i = Math.max(0, n - 8); i < n; i++) b[i] = (byte)r.u32(); break;
			case 9: { int i = r.below(n), j = r.below(n); if (i == j) { b[i]++; break; }                                  // the same Arrays.hashCode
				i = Math.min(n - 1, i); if (i == n - 1) i--; if (i < 0) { b[0]++; break; } if (b[i] < 127 && b[i + 1] >= -97) { b[i]++; b[i + 1] -= 31; } else b[i]++; break; }
			case 10: b[r.below(n)]++; b[r.below(n)]--; break;                                                             // same byte sum
			default: { int d = 1 + r.below(255); b[r.below(n)] ^= d; b[r.below(n)] ^= d; }                                // same XOR of the bytes
		}
		return b;
	}
	byte[] related(char k, byte[] b) {
		switch (k) {
			case 's': { BigInteger v = big(b, 0); switch (r.below(4)) { case 0: v = N.subtract(v); break; case 1: v = v.shiftLeft(1).mod(N); break; case 2: v = v.add(ONE).mod(N); break; default: v = big(mutate(b), 0).mod(N); } return be32(v.signum() == 0 ? ONE : v); }
			case 'f': return be32(r.chance(1, 4) ? big(b, 0).negate().mod(P) : big(mutate(b), 0).mod(P));
			case 'p': { Pt p = unpack(b); switch (r.below(4)) { case 0: return pack(p); case 1: return pack(p.neg()); case 2: return pack(p.add(p)); default: return pack(p.inf() ? p : new Pt(p.x.multiply(TWO.modPow(P.subtract(ONE).divide(THREE), P)).mod(P), p.y)); } }
			case 'm': case 'k': case 'd': { switch (r.below(4)) { case 0: { byte[] x = Arrays.copyOf(b, b.length + 1); if (r.chance(1, 2)) x[b.length] = (byte)r.u32(); return x; } case 1: return Arrays.copyOf(b, Math.max(0, b.length - 1)); default: return mutate(b); } }
			case 'b': return fresh('b');
			case 'w': { byte[] x = mutate(b); return r.chance(1, 4) ? Arrays.copyOf(x, x.length == 20 ? 32 : 20) : x; }
			case 'g': { byte[] x = mutate(b); if (r.chance(7, 8)) for (int i = 0; i < x.length; i++) x[i] &= 31; return x; }
			case 't': case 'a': case 'r': case 'e': case 'x': {
				String s = str(b);
				if (k == 'x' || k == 'e') {   // the same values in another writing, or related values with their own checksum
					Object[] u = Oracle.unbech32(s);
					if (u != null && r.chance(1, 2)) {
						int[] g = ((int[])u[1]).clone(); String hp = (String)u[0];
						switch (r.below(4)) { case 0: if (g.length > 0) g[r.below(g.length)] ^= 1 << r.below(5); break; case 1: hp = k == 'x' ? hp.equals("bc") ? "tb" : "bc" : hrp(); break; case 2: return utf(s.equals(s.toLowerCase(Locale.ROOT)) ? s.toUpperCase(Locale.ROOT) : s.toLowerCase(Locale.ROOT)); default: }
						return utf(cased(Oracle.bech32(hp, g)));
					}
				}
				if (k == 'a' && r.chance(1, 3)) { byte[] x = Oracle.unbase58(s); if (x != null && x.length >= 4) return utf(Oracle.base58(Oracle.withCheck(mutate(Arrays.copyOf(x, x.length - 4))))); }
				if (s.isEmpty()) return utf("1");
				StringBuilder t = new StringBuilder(s); int i = r.below(s.length()); char ch = s.charAt(i);
				String odd = k == 't' ? "\u0661\uFF11\u0967+-gG " : "\u0130\u0131\u212A\u017F\u0661 1IiOol0b";
				switch (r.below(7)) {
					case 0: t.setCharAt(i, odd.charAt(r.below(odd.length()))); break;
					case 1: t.setCharAt(i, (k == 'a' ? B58 : k == 't' ? "0123456789abcdefABCDEF" : B32).charAt(r.below(k == 'a' ? 58 : k == 't' ? 22 : 32))); break;
					case 2: t.setCharAt(i, Character.isUpperCase(ch) ? Character.toLowerCase(ch) : Character.toUpperCase(ch)); break;
					case 3: t = new StringBuilder(s.toUpperCase(Locale.ROOT)); break;
					case 4: { int j = r.below(s.length()); t.setCharAt(i, s.charAt(j)); t.setCharAt(j, ch); break; }
					case 5: if (i + 1 < s.length()) { char a = s.charAt(i), c = s.charAt(i + 1); if (a < 'z' && c > '1' + 31) { t.setCharAt(i, (char)(a + 1)); t.setCharAt(i + 1, (char)(c - 31)); } } break;   // the same String.hashCode
					default: t.insert(0, '1');
				}
				return utf(t.toString());
			}
			default: return mutate(b);
		}
	}
	byte[] draw(char k) {
		List<byte[]> p = pools.get(k);
		if (p.isEmpty()) {
			p.add(fresh(k));
			for (int i = 0; i < 4; i++) p.add(related(k, p.get(r.below(p.size()))));
			if (r.chance(1, 2)) p.add(fresh(k));
		}
		return p.get(r.below(p.size()));
	}
	static String ambient(Ctx c, Rng r) {
		String l = LOCALES[r.below(LOCALES.length)];
		Locale.setDefault(l.isEmpty() ? Locale.ROOT : Locale.forLanguageTag(l));
		if (r.chance(1, 3)) Locale.setDefault(Locale.Category.FORMAT, Locale.forLanguageTag(LOCALES[1 + r.below(LOCALES.length - 1)]));
		String n = "locale=" + Locale.getDefault(Locale.Category.DISPLAY).toLanguageTag() + "/" + Locale.getDefault(Locale.Category.FORMAT).toLanguageTag();
		c.hit("ambient.locale-" + (l.isEmpty() ? "root" : l));
		if (r.chance(1, 3)) { TimeZone.setDefault(TimeZone.getTimeZone(r.chance(1, 2) ? "Asia/Kathmandu" : "Pacific/Kiritimati")); n += " zone"; c.hit("ambient.zone"); }
		if (r.chance(1, 3)) { Thread.currentThread().interrupt(); n += " interrupted"; c.hit("ambient.interrupted"); }
		if (r.chance(1, 3)) { Thread.currentThread().setContextClassLoader(null); n += " no-context-loader"; c.hit("ambient.no-context-loader"); }
		return n;
	}
	static void calm(ClassLoader cl) { Thread.interrupted(); Locale.setDefault(START); TimeZone.setDefault(ZONE); Thread.currentThread().setContextClassLoader(cl); }
	static void run(Ctx c) throws Exception {
		Rng r = c.rng; SuiteHistory g = new SuiteHistory(r); ClassLoader cl = Thread.currentThread().getContextClassLoader();
		boolean cold = r.chance(1, 3);   // a history that begins with the first call ever
		if (old == null) old = fresh();
		HistoryDriver used = cold ? fresh() : old;
		c.hit(cold ? "histories.from-the-first-call" : "histories.in-a-long-lived-copy");
		int[] focus = {(int)(c.idx % N_OPS), r.below(N_OPS), r.below(N_OPS)};
		for (int i = 1; i < 3; i++) for (int h : HEAVY) if (focus[i] == h && r.chance(1, 2)) focus[i] = 9 + r.below(16);
		Map<String,String> memo = new HashMap<>(); Map<Integer,byte[][]> last = new HashMap<>();
		StringBuilder trail = new StringBuilder(); int prev = -1, heavy = 0;
		for (int step = 0; step < 40; step++) {
			int op = r.chance(2, 3) ? focus[r.below(3)] : r.below(N_OPS);
			String kinds = HistoryOps.KINDS[op];
			byte[][] a = new byte[kinds.length()][];
			for (int i = 0; i < a.length; i++) a[i] = g.draw(kinds.charAt(i));
			if (op == 8 && r.chance(2, 3)) a[1] = a[0];
			byte[][] l = last.get(op);
			if (l != null && r.chance(1, 2)) { int keep = r.below(a.length + 1); for (int i = 0; i < a.length; i++) if (i != keep) a[i] = l[i]; c.hit("calls-differing-in-at-most-one-argument"); }
			last.put(op, a);
			StringBuilder q = new StringBuilder(HistoryOps.NAMES[op]);
			for (byte[] b : a) q.append(' ').append(b.length == 0 ? "-" : hex(b));
			String key = q.toString(), want = memo.get(key);
			boolean reuse = r.chance(3, 4), disturbed = r.chance(1, 2);
			c.note("call " + step + " of a history: " + Mon.cut(key, 2500) + (reuse ? " [reused arrays]" : " [new arrays]") + " after" + trail);
			if (want == null) {
				for (int h : HEAVY) if (op == h) heavy++;
				if (heavy > 8 && Arrays.stream(HEAVY).anyMatch(h -> h == op)) continue;   // bounds the time of one history
				want = fresh().run(op, a, false); memo.put(key, want); c.hit("pristine-executions"); c.observe(want);
			} else c.hit("repeated-arguments");
			String how = disturbed ? ambient(c, r) : "default", got;
			try { got = used.run(op, a, reuse); } finally { calm(cl); }
			if (!got.equals(want)) throw new Violation(HistoryOps.NAMES[op] + " gives " + Mon.cut(got, 700) + " [" + how + "], but " + Mon.cut(want, 700) + " in a copy of the library that has made no other call");
			c.evaluations++; c.hit("op." + HistoryOps.NAMES[op]); if (want.startsWith("throws")) c.hit("refused." + HistoryOps.NAMES[op]);
			c.nontrivial(prev + "|" + key);
			trail.append(' ').append(HistoryOps.NAMES[op]); if (trail.length() > 300) trail.delete(0, trail.length() - 300);
			prev = op;
		}
	}
}
