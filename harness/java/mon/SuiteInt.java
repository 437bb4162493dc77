package mon;

import static mon.Gen.*;
import io.nayuki.bitcoin.crypto.Int256Math;
import java.math.BigInteger;
import java.util.Arrays;

/** 256-bit integers, reciprocal and field elements in word arrays. */
final class SuiteInt {
	static void register() { Mon.SUITES.put("juint", SuiteInt::uint); Mon.SUITES.put("jrecip", SuiteInt::recip); Mon.SUITES.put("jfield", SuiteInt::field); }
	static final int[] S8 = {8, 8, 8};
	static int b(boolean x) { return x ? 1 : 0; }

	static void uint(Ctx c) {
		Rng r = c.rng;
		BigInteger a = v256(r), bb = related(r, a);
		Lay l = new Lay(r, S8, 0);
		int xo = l.off[0], yo = r.chance(1, 8) ? xo : l.off[1], zo;
		switch (r.below(4)) { case 0: zo = xo; break; case 1: zo = yo; break; default: zo = l.off[2]; }
		if (yo == xo) bb = a;
		int en = r.below(2);
		c.note("x=" + hex(a) + " y=" + hex(bb) + " enable=" + en + " offsets=" + xo + "," + yo + "," + zo);
		c.nontrivial();
		c.hit(xo == yo ? "alias.x=y" : zo == xo ? "alias.z=x" : zo == yo ? "alias.z=y" : "distinct");
		BigInteger t = en == 1 ? bb : ZERO;
		load(l, xo, a, yo, bb);
		int k = Int256Math.uintAdd(l.val, xo, yo, en, zo);
		BigInteger s = a.add(t);
		c.check(k == b(s.bitLength() > 256), "uintAdd carry %d", k);
		res(c, l, "uintAdd", zo, wrap(s)); c.hit("carry" + k);
		load(l, xo, a, yo, bb);
		k = Int256Math.uintSubtract(l.val, xo, yo, en, zo);
		s = a.subtract(t);
		c.check(k == b(s.signum() < 0), "uintSubtract borrow %d", k);
		res(c, l, "uintSubtract", zo, wrap(s)); c.hit("borrow" + k);
		load(l, xo, a, yo, bb);
		k = Int256Math.uintShiftLeft1(l.val, xo, zo);
		c.check(k == b(a.testBit(255)), "uintShiftLeft1 returned %d", k);
		res(c, l, "uintShiftLeft1", zo, wrap(a.shiftLeft(1)));
		load(l, xo, a, yo, bb);
		Int256Math.uintShiftRight1(l.val, xo, en, zo);
		res(c, l, "uintShiftRight1", zo, en == 1 ? a.shiftRight(1) : a);
		load(l, xo, a, yo, bb);
		Int256Math.replace(l.val, xo, yo, en);
		res(c, l, "replace", xo, en == 1 ? bb : a);
		load(l, xo, a, yo, bb);
		Int256Math.swap(l.val, xo, yo, en);
		c.check(l.get(xo).equals(en == 1 ? bb : a) && l.get(yo).equals(en == 1 ? a : bb), "swap gave %s %s", hex(l.get(xo)), hex(l.get(yo)));
		l.intact(c, "swap", xo, 8, yo, 8);
		load(l, xo, a, yo, bb);
		k = Int256Math.equalTo(l.val, xo, yo);
		c.check(k == b(a.equals(bb)), "equalTo returned %d", k); c.hit("equal" + k);
		k = Int256Math.lessThan(l.val, xo, yo);
		c.check(k == b(a.compareTo(bb) < 0), "lessThan returned %d", k); c.hit("less" + k);
		k = Int256Math.lessThan(l.val, yo, xo);
		c.check(k == b(bb.compareTo(a) < 0), "lessThan (swapped) returned %d", k);
		l.intact(c, "comparison");
		Int256Math.copy(l.val, yo, l.val, xo);
		res(c, l, "copy", xo, bb);
		load(l, xo, a, yo, bb);
		// conversions
		byte[] by = Int256Math.uintToBytes(l.val, xo);
		c.check(Arrays.equals(by, be32(a)), "uintToBytes gave %s", hex(by));
		c.check(Int256Math.uintToHex(l.val, xo).equals(hex(a)), "uintToHex gave %s", Int256Math.uintToHex(l.val, xo));
		l.intact(c, "conversion");
		byte[] src = be32(bb), keep = src.clone();
		Int256Math.bytesToUint(src, l.val, xo);
		c.check(Arrays.equals(src, keep), "bytesToUint changed its argument");
		res(c, l, "bytesToUint", xo, bb);
		load(l, xo, a, yo, bb);
		String h = hex(bb); StringBuilder sb = new StringBuilder();
		for (int i = 0; i < 64; i++) sb.append(r.chance(1, 2) ? Character.toUpperCase(h.charAt(i)) : h.charAt(i));
		Int256Math.hexToUint(sb.toString(), l.val, xo);
		res(c, l, "hexToUint", xo, bb);
		if (c.idx % 4 == 0) {
			load(l, xo, a, yo, bb);
			String bad = badHex(r, sb.toString());
			c.hit("reject.hex");
			c.rejects(IllegalArgumentException.class, "hexToUint of \"" + bad + "\"", () -> Int256Math.hexToUint(bad, l.val, xo));
			byte[] wrong = r.bytes(r.chance(1, 2) ? 31 + 2 * r.below(2) : r.below(80) == 32 ? 0 : r.chance(1, 2) ? 0 : 64);
			c.rejects(IllegalArgumentException.class, "bytesToUint of " + wrong.length + " bytes", () -> Int256Math.bytesToUint(wrong, l.val, xo));
			c.rejects(NullPointerException.class, "hexToUint(null)", () -> Int256Math.hexToUint(null, l.val, xo));
			c.rejects(NullPointerException.class, "bytesToUint(null)", () -> Int256Math.bytesToUint(null, l.val, xo));
			l.intact(c, "rejected conversion");
		}
	}
	static String badHex(Rng r, String good) {
		switch (r.below(6)) {
			case 0: return good.substring(1);
			case 1: return good + "0";
			case 2: return "";
			case 3: { char[] ch = good.toCharArray(); String bad = "gG/:@`- +xzZ\n\u0130\uFF11\u0661\u00e9"; ch[r.below(64)] = bad.charAt(r.below(bad.length())); return new String(ch); }
			case 4: return good.substring(0, 63) + "\n";
			default: { char[] ch = good.toCharArray(); ch[8 * r.below(8)] = r.chance(1, 2) ? '-' : '+'; return new String(ch); }
		}
	}
	static void load(Lay l, int xo, BigInteger a, int yo, BigInteger b) { l.put(xo, a); l.put(yo, b); l.arm(); }
	static void res(Ctx c, Lay l, String op, int zo, BigInteger want) {
		c.check(l.get(zo).equals(want), "%s gave %s, expected %s", op, hex(l.get(zo)), hex(want));
		l.intact(c, op, zo, 8);
	}

	static BigInteger genModulus(Rng r) {
		switch (r.below(8)) {
			case 0: return P;
			case 1: return N;
			case 2: return M.subtract(ONE).subtract(BigInteger.valueOf(2 * r.below(6)));
			case 3: return BigInteger.valueOf(3 + 2 * r.below(40));
			case 4: { BigInteger v = rand(r).shiftRight(r.below(250)).setBit(0); return v.compareTo(ONE) <= 0 ? THREE : v; }
			case 5: { BigInteger v = THREE.pow(1 + r.below(160)); return v; }
			default: { BigInteger v = v256(r).setBit(0); return v.compareTo(ONE) <= 0 ? THREE : v; }
		}
	}
	static void recip(Ctx c) {
		Rng r = c.rng;
		BigInteger m = genModulus(r);
		if (m.bitLength() > 256) m = m.mod(M).setBit(0);
		BigInteger x;
		switch (r.below(10)) {
			case 0: x = ZERO; break;
			case 1: x = ONE; break;
			case 2: x = m.subtract(ONE); break;
			case 3: x = ONE.shiftLeft(r.below(256)).mod(m); break;
			case 4: x = m.shiftRight(1).add(BigInteger.valueOf(r.below(2))); break;
			default: x = below(r, m);
		}
		int kind = r.below(12);
		Class<? extends Throwable> bad = null;
		if (kind == 0) { m = r.chance(1, 2) ? m.clearBit(0) : v256(r).clearBit(0); bad = IllegalArgumentException.class; }
		else if (kind == 1) { m = ONE; x = r.chance(1, 2) ? ZERO : v256(r); bad = IllegalArgumentException.class; }
		else if (kind == 2) { x = r.chance(1, 3) ? m : m.add(r.chance(1, 2) ? BigInteger.valueOf(r.below(3)) : rand(r).mod(M.subtract(m))); if (x.bitLength() > 256) x = m; bad = IllegalArgumentException.class; }
		else if (kind == 3 && m.compareTo(BigInteger.valueOf(9)) >= 0) {   // common factor
			BigInteger g = BigInteger.valueOf(3 + 2 * r.below(20));
			BigInteger q = m.divide(g); if (!q.testBit(0)) q = q.subtract(ONE);
			if (q.signum() > 0) { m = g.multiply(q); x = g.multiply(q.compareTo(ONE) > 0 ? below(r, q) : ZERO); }
		}
		boolean coprime = bad == null && (x.signum() == 0 || x.gcd(m).equals(ONE));
		if (bad == null && !coprime) bad = IllegalArgumentException.class;
		Lay l = new Lay(r, S8, Int256Math.RECIPROCAL_TEMP_WORDS);
		int xo = l.off[0], yo = l.off[1], zo = l.off[2];
		c.note("x=" + hex(x) + " m=" + hex(m) + " offsets=" + Arrays.toString(l.off) + " scratch=" + l.temp);
		c.nontrivial();
		load(l, xo, x, yo, m);
		if (bad != null) {
			c.hit("reject." + (kind <= 2 ? kind == 0 ? "even" : kind == 1 ? "one" : "x>=m" : "not-coprime"));
			c.rejects(bad, "reciprocal", () -> Int256Math.reciprocal(l.val, xo, yo, zo, l.temp));
			l.intact(c, "rejected reciprocal", zo, 8);
			return;
		}
		Int256Math.reciprocal(l.val, xo, yo, zo, l.temp);
		c.hit(x.signum() == 0 ? "zero" : "inverse"); c.hit("modulus.bits." + (m.bitLength() == 256 ? "256" : m.bitLength() > 128 ? "129-255" : "2-128"));
		res(c, l, "reciprocal", zo, x.signum() == 0 ? ZERO : x.modInverse(m));
	}

	/** A value whose product with x falls r.small() past a multiple of the prime. */
	static BigInteger cofactor(Rng r, BigInteger x, BigInteger target) { return x.signum() == 0 ? ZERO : target.multiply(x.modInverse(P)).mod(P); }
	static BigInteger target(Rng r) {
		switch (r.below(5)) {
			case 0: return BigInteger.valueOf(r.below(4));
			case 1: return P.subtract(ONE).subtract(BigInteger.valueOf(r.below(4)));
			case 2: return BigInteger.valueOf(r.next() >>> 1);                                  // below 2^63: quotient estimate off by one
			case 3: return ONE.shiftLeft(32).add(BigInteger.valueOf(977 - 3 + r.below(6)));     // remainder + prime next to 2^256
			default: return P.subtract(small(r)).mod(P);
		}
	}
	static void field(Ctx c) {
		Rng r = c.rng;
		BigInteger a = below(r, P), bb;
		String kind;
		switch (r.below(8)) {
			case 0: bb = P.subtract(a).mod(P); kind = "opposite"; break;
			case 1: bb = P.subtract(a).add(r.chance(1, 2) ? ONE : ONE.negate()).mod(P); kind = "near-opposite"; break;
			case 2: bb = a; kind = "equal"; break;
			case 3: bb = M.subtract(a).add(BigInteger.valueOf(r.below(5) - 2)).mod(M).mod(P); kind = "sum-near-2^256"; break;
			case 4: case 5: { if (r.chance(1, 2)) a = P.subtract(ONE).subtract(rand(r).shiftRight(r.below(200) + 2)); bb = cofactor(r, a, target(r)); kind = "chosen-product"; break; }
			default: bb = below(r, P); kind = "random";
		}
		if (r.chance(1, 10)) {   // chosen square
			BigInteger t = target(r), s = t.modPow(P.add(ONE).shiftRight(2), P);
			if (s.multiply(s).mod(P).equals(t)) { a = r.chance(1, 2) ? s : P.subtract(s).mod(P); bb = a; kind = "chosen-square"; }
		}
		int w = r.chance(1, 2) ? Int256Math.FIELD_MULTIPLY_TEMP_WORDS : 0;
		Lay l = new Lay(r, S8, Math.max(w, Int256Math.FIELD_ADD_TEMP_WORDS));
		int xo = l.off[0], yo = r.chance(1, 8) ? xo : l.off[1], zo;
		if (yo == xo) bb = a;
		switch (r.below(4)) { case 0: zo = xo; break; case 1: zo = yo; break; default: zo = l.off[2]; }
		c.note("x=" + hex(a) + " y=" + hex(bb) + " offsets=" + xo + "," + yo + "," + zo + " scratch=" + l.temp + " " + kind);
		c.nontrivial(); c.hit(kind); c.hit(xo == yo ? "alias.x=y" : zo == xo ? "alias.z=x" : zo == yo ? "alias.z=y" : "distinct");
		if (w == 0) {
			load(l, xo, a, yo, bb); Int256Math.fieldAdd(l.val, xo, yo, zo, l.temp); res(c, l, "fieldAdd", zo, a.add(bb).mod(P)); c.hit(a.add(bb).compareTo(M) >= 0 ? "add.carry" : a.add(bb).compareTo(P) >= 0 ? "add.reduced" : "add.plain");
			load(l, xo, a, yo, bb); Int256Math.fieldSubtract(l.val, xo, yo, zo, l.temp); res(c, l, "fieldSubtract", zo, a.subtract(bb).mod(P));
			load(l, xo, a, yo, bb); Int256Math.fieldMultiply2(l.val, xo, zo, l.temp); res(c, l, "fieldMultiply2", zo, a.shiftLeft(1).mod(P));
		} else {
			load(l, xo, a, yo, bb); Int256Math.fieldMultiply(l.val, xo, yo, zo, l.temp); res(c, l, "fieldMultiply", zo, a.multiply(bb).mod(P));
			load(l, xo, a, yo, bb); Int256Math.fieldSquare(l.val, xo, zo, l.temp); res(c, l, "fieldSquare", zo, a.multiply(a).mod(P));
			BigInteger q = a.multiply(bb).mod(P); c.hit(q.bitLength() <= 64 ? "product.small-remainder" : "product.other");
		}
	}
}
