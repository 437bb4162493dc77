package mon;

import static mon.Gen.*;
import io.nayuki.bitcoin.crypto.Sha256Hash;
import java.util.Arrays;

/** Sha256Hash as an immutable, ordered value. */
final class SuiteValue {
	static void register() { Mon.SUITES.put("jvalue", SuiteValue::value); }
	static byte[] bytes(Rng r) { return r.chance(1, 2) ? r.bytes(32) : be32(v256(r)); }
	static byte[] near(Rng r, byte[] a) {
		byte[] b = a.clone();
		switch (r.below(7)) {
			case 0: return b;
			case 1: b[r.below(32)] ^= 1 << r.below(8); return b;
			case 2: b[r.below(32)] ^= 0x80; return b;
			case 3: { int i = r.below(32), j = r.below(32); byte t = b[i]; b[i] = b[j]; b[j] = t; return b; }
			case 4: for (int i = 0; i < 32; i++) b[i] = a[31 - i]; return b;
			case 5: { b[r.below(32)] += 1 + r.below(3); b[r.below(32)] -= 1 + r.below(3); return b; }
			default: return bytes(r);
		}
	}
	static String text(byte[] a) { byte[] v = new byte[32]; for (int i = 0; i < 32; i++) v[i] = a[31 - i]; return hex(v); }
	/** Numeric order of the byte-reversed value. */
	static int order(byte[] a, byte[] b) { return text(a).compareTo(text(b)); }
	static void value(Ctx c) {
		Rng r = c.rng;
		byte[] a = bytes(r), b = near(r, a), d = near(r, r.chance(1, 2) ? a : b);
		c.note("a=" + hex(a) + " b=" + hex(b) + " c=" + hex(d)); c.nontrivial();
		byte[] in = a.clone();
		Sha256Hash ha = new Sha256Hash(in), hb = new Sha256Hash(b.clone()), hd = new Sha256Hash(d.clone());
		c.check(Arrays.equals(in, a), "the constructor changed its argument");
		Arrays.fill(in, (byte)r.u32()); in[r.below(32)] ^= 1;
		c.check(Arrays.equals(ha.toBytes(), a), "a later change of the constructor's argument changed the hash to %s", hex(ha.toBytes()));
		byte[] out = ha.toBytes(); out[r.below(32)] ^= 1 + r.below(255);
		c.check(Arrays.equals(ha.toBytes(), a), "changing a returned array changed the hash to %s", hex(ha.toBytes()));
		c.check(ha.toBytes() != ha.toBytes(), "toBytes returned the same array twice");
		String s = ha.toString();
		c.check(s.equals(text(a)), "toString gave %s", s);
		StringBuilder sb = new StringBuilder(); int mode = r.below(3);
		for (int i = 0; i < 64; i++) sb.append(mode == 1 || mode == 2 && r.chance(1, 2) ? Character.toUpperCase(s.charAt(i)) : s.charAt(i));
		Sha256Hash hs = new Sha256Hash(sb.toString());
		c.check(Arrays.equals(hs.toBytes(), a), "new Sha256Hash(\"%s\") holds %s", sb, hex(hs.toBytes()));
		byte[] o2 = hs.toBytes(); o2[r.below(32)] ^= 4;
		c.check(Arrays.equals(hs.toBytes(), a), "changing a returned array changed the text-built hash");
		// equality and hash codes
		boolean eq = Arrays.equals(a, b);
		c.check(ha.equals(hb) == eq && hb.equals(ha) == eq, "equals gave %s/%s", ha.equals(hb), hb.equals(ha));
		c.check(ha.equals(ha) && ha.equals(hs) && hs.equals(ha), "equal hashes compare unequal");
		c.check(!ha.equals(null) && !ha.equals((Object)s) && !ha.equals((Object)a), "equal to a foreign object");
		c.check(ha.hashCode() == hs.hashCode() && (!eq || ha.hashCode() == hb.hashCode()), "equal hashes have different hash codes");
		c.check(ha.hashCode() == ha.hashCode(), "hash code is not stable");
		c.hit(eq ? "equal" : "unequal");
		// order
		int ab = ha.compareTo(hb), ba = hb.compareTo(ha), bc = hb.compareTo(hd), ac = ha.compareTo(hd);
		c.check(Integer.signum(ab) == Integer.signum(order(a, b)), "compareTo gave %d", ab);
		c.check(Integer.signum(ba) == -Integer.signum(ab), "compareTo is not antisymmetric: %d %d", ab, ba);
		c.check((ab == 0) == eq, "compareTo gave %d but equals gave %s", ab, eq);
		c.check(Integer.signum(ac) == Integer.signum(order(a, d)) && Integer.signum(bc) == Integer.signum(order(b, d)), "compareTo with the third hash gave %d %d", ac, bc);
		if (ab <= 0 && bc <= 0) { c.check(ac <= 0, "compareTo is not transitive"); c.hit("chain"); }
		c.check(ha.compareTo(hs) == 0, "compareTo of equal hashes");
		c.hit(ab < 0 ? "less" : ab > 0 ? "greater" : "same");
		if (c.idx % 4 == 0) {
			byte[] w = r.bytes(r.chance(1, 2) ? 31 + 2 * r.below(2) : r.below(6) == 0 ? 0 : r.chance(1, 2) ? 64 : r.below(31));
			c.rejects(IllegalArgumentException.class, "construction from " + w.length + " bytes", () -> new Sha256Hash(w));
			String bad; char[] ch = sb.toString().toCharArray();
			switch (r.below(7)) {
				case 0: bad = s.substring(1); break;
				case 1: bad = s + "0"; break;
				case 2: bad = ""; break;
				case 3: bad = s.substring(0, 63) + "\n"; break;
				case 4: ch[2 * r.below(32)] = r.chance(1, 2) ? '+' : '-'; bad = new String(ch); break;
				case 5: { String x = "gG/:@`- xzZ\u0130\uFF11\u0661\u00e9\u0966\u0000"; ch[r.below(64)] = x.charAt(r.below(x.length())); bad = new String(ch); break; }
				default: bad = "0x" + s.substring(2);
			}
			c.rejects(IllegalArgumentException.class, "construction from \"" + bad + "\"", () -> new Sha256Hash(bad));
			c.rejects(NullPointerException.class, "construction from null bytes", () -> new Sha256Hash((byte[])null));
			c.rejects(NullPointerException.class, "construction from null text", () -> new Sha256Hash((String)null));
			c.rejects(NullPointerException.class, "comparison with null", () -> ha.compareTo(null));
			c.hit("rejections");
		}
	}
}
