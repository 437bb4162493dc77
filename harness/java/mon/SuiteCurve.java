package mon;

import static mon.Gen.*;
import io.nayuki.bitcoin.crypto.CurvePointMath;
import java.math.BigInteger;
import java.util.Arrays;

final class SuiteCurve {
	static void register() { Mon.SUITES.put("jpoint", SuiteCurve::point); Mon.SUITES.put("jmul", SuiteCurve::mul); }
	static final int PW = 24;
	static BigInteger scale(Rng r) { return r.chance(1, 4) ? ONE : r.chance(1, 3) ? nonzeroBelow(r, BigInteger.valueOf(50)) : nonzeroBelow(r, P); }
	static BigInteger[] rep(Rng r, Pt p) {
		BigInteger s = scale(r);
		return p.inf() ? new BigInteger[]{ZERO, s, ZERO} : new BigInteger[]{p.x.multiply(s).mod(P), p.y.multiply(s).mod(P), s};
	}
	static BigInteger[] by(Pt p, BigInteger s) { return new BigInteger[]{p.x.multiply(s).mod(P), p.y.multiply(s).mod(P), s}; }
	static void put(Lay l, int o, BigInteger[] p) { for (int i = 0; i < 3; i++) l.put(o + 8 * i, p[i]); }
	static String show(BigInteger[] p) { return "(" + hex(p[0]) + "," + hex(p[1]) + "," + hex(p[2]) + ")"; }
	static BigInteger[] get(Lay l, int o) { return new BigInteger[]{l.get(o), l.get(o + 8), l.get(o + 16)}; }
	static void same(Ctx c, String op, BigInteger[] g, Pt want) {
		for (BigInteger v : g) c.check(v.compareTo(P) < 0, "%s left an unreduced coordinate: %s", op, show(g));
		if (want.inf()) c.check(g[0].signum() == 0 && g[1].signum() != 0 && g[2].signum() == 0, "%s gave %s, expected infinity", op, show(g));
		else c.check(g[2].signum() != 0 && want.x.multiply(g[2]).mod(P).equals(g[0]) && want.y.multiply(g[2]).mod(P).equals(g[1]), "%s gave %s, expected %s", op, show(g), want);
	}
	static void norm(Ctx c, String op, BigInteger[] g, Pt want) {
		BigInteger[] e = want.inf() ? new BigInteger[]{ZERO, ONE, ZERO} : new BigInteger[]{want.x, want.y, ONE};
		c.check(Arrays.equals(g, e), "%s gave %s, expected %s", op, show(g), show(e));
	}
	static void point(Ctx c) {
		Rng r = c.rng;
		Pt a = r.chance(1, 12) ? Pt.INF : Pt.gen(r), b;
		String kind;
		switch (r.below(8)) {
			case 0: b = a; kind = "equal"; break;
			case 1: b = a.neg(); kind = "opposite"; break;
			case 2: b = Pt.INF; kind = "infinity"; break;
			case 3: { if (a.inf()) { b = Pt.G; } else { BigInteger beta = TWO.modPow(P.subtract(ONE).divide(THREE), P); b = new Pt(a.x.multiply(beta).mod(P), r.chance(1, 2) ? a.y : a.y.negate().mod(P)); } kind = "same-y"; break; }
			case 4: b = a.add(a); kind = "double"; break;
			default: b = Pt.gen(r); kind = "random";
		}
		if (a.inf()) kind += "+zero";
		BigInteger[] ra = rep(r, a), rb = rep(r, b);
		if (!a.inf() && r.chance(1, 6)) {   // a raw coordinate takes a special value
			BigInteger v = r.chance(1, 2) ? a.x : a.y, t = new BigInteger[]{ONE, TWO, P.subtract(ONE), P.subtract(TWO), N, N.add(ONE), M.subtract(P), M.shiftRight(1)}[r.below(8)];
			if (v.signum() != 0) { ra = by(a, t.multiply(v.modInverse(P)).mod(P)); c.hit("special-raw-coordinate"); }
		}
		if (!a.inf() && !b.inf() && r.chance(1, 5)) {   // a raw coordinate of one operand coincides with a raw coordinate of the other
			int i = r.below(3), j = r.chance(2, 3) ? i : r.below(3);
			BigInteger v = new BigInteger[]{b.x, b.y, ONE}[j];
			if (v.signum() != 0 && ra[i].signum() != 0) { rb = by(b, ra[i].multiply(v.modInverse(P)).mod(P)); c.hit("coinciding-raw-coordinates"); }
		}
		c.note("p=" + show(ra) + " q=" + show(rb) + " " + kind); c.nontrivial(); c.hit(kind);
		int op = r.below(6);
		int tw = op == 0 ? CurvePointMath.TWICE_TEMP_WORDS : op == 1 || op == 2 ? CurvePointMath.ADD_TEMP_WORDS : op == 3 ? CurvePointMath.NORMALIZE_TEMP_WORDS : op == 4 ? CurvePointMath.ISONCURVE_TEMP_WORDS : 0;
		Lay l = new Lay(r, new int[]{PW, PW}, tw);
		int po = l.off[0], qo = l.off[1];
		put(l, po, ra); put(l, qo, rb); l.arm();
		switch (op) {
			case 0:
				CurvePointMath.twice(l.val, po, l.temp); same(c, "twice", get(l, po), a.add(a)); l.intact(c, "twice", po, PW);
				l.arm(); CurvePointMath.twice(l.val, po, l.temp); same(c, "twice twice", get(l, po), a.add(a).add(a.add(a))); l.intact(c, "twice", po, PW);
				c.hit("op.twice"); break;
			case 1: case 2: {
				CurvePointMath.add(l.val, po, qo, l.temp); Pt s = a.add(b); same(c, "add", get(l, po), s); l.intact(c, "add", po, PW);
				put(l, po, ra); l.arm(); CurvePointMath.add(l.val, qo, po, l.temp); same(c, "add commuted", get(l, qo), s); l.intact(c, "add", qo, PW);
				l.arm(); CurvePointMath.add(l.val, qo, po, l.temp); s = s.add(a); same(c, "chained add", get(l, qo), s); l.intact(c, "add", qo, PW);
				if (r.chance(1, 3)) { put(l, po, rep(r, s.neg())); CurvePointMath.add(l.val, qo, po, l.temp); same(c, "cancel", get(l, qo), Pt.INF); put(l, po, ra); CurvePointMath.add(l.val, qo, po, l.temp); same(c, "infinity plus point", get(l, qo), a); }
				else if (r.chance(1, 2)) { put(l, po, rep(r, s)); CurvePointMath.add(l.val, qo, po, l.temp); same(c, "add of equal", get(l, qo), s.add(s)); }
				c.hit("op.add"); break;
			}
			case 3:
				CurvePointMath.normalize(l.val, po, l.temp); norm(c, "normalize", get(l, po), a); l.intact(c, "normalize", po, PW);
				l.arm(); CurvePointMath.normalize(l.val, po, l.temp); norm(c, "second normalize", get(l, po), a); l.intact(c, "normalize", po, PW);
				c.hit("op.normalize"); break;
			case 4: {
				Pt t = a;
				if (!t.inf() && r.chance(1, 2)) {
					BigInteger u = scale(r);
					switch (r.below(5)) {
						case 0: t = new Pt(t.x.add(ONE).mod(P), t.y); break;
						case 1: t = new Pt(t.x, t.y.add(ONE).mod(P)); break;
						case 2: t = new Pt(t.y, t.x); break;
						case 3: t = r.chance(1, 2) ? new Pt(ZERO, t.y) : new Pt(t.x, ZERO); break;
						default: t = new Pt(t.x.multiply(u).multiply(u).mod(P), t.y.multiply(u.pow(3)).mod(P));
					}
				}
				put(l, po, t.inf() ? new BigInteger[]{ZERO, ONE, ZERO} : new BigInteger[]{t.x, t.y, ONE}); l.arm();
				int g = CurvePointMath.isOnCurve(l.val, po, l.temp);
				c.check(g == (t.onCurve() ? 1 : 0), "isOnCurve gave %d for %s", g, t); l.intact(c, "isOnCurve");
				c.hit("op.isOnCurve." + (t.inf() ? "zero" : t.onCurve() ? "on" : "off")); break;
			}
			default: {
				int en = r.below(2);
				CurvePointMath.replace(l.val, po, qo, en);
				c.check(Arrays.equals(get(l, po), en == 1 ? rb : ra), "replace with enable %d gave %s", en, show(get(l, po))); l.intact(c, "replace", po, PW);
				put(l, po, ra); l.arm();
				int z = CurvePointMath.isZero(l.val, po);
				c.check(z == (a.inf() ? 1 : 0), "isZero gave %d for %s", z, show(ra)); l.intact(c, "isZero");
				CurvePointMath.copy(l.val, qo, l.val, po); c.check(Arrays.equals(get(l, po), rb), "copy"); l.intact(c, "copy", po, PW);
				int[] g = CurvePointMath.getBasePoint();
				c.check(g.length == PW && Gen.get(g, 0).equals(GX) && Gen.get(g, 8).equals(GY) && Gen.get(g, 16).equals(ONE), "base point");
				Arrays.fill(g, r.u32());   // a caller's copy
				int[] g2 = CurvePointMath.getBasePoint();
				c.check(Gen.get(g2, 0).equals(GX) && Gen.get(g2, 8).equals(GY) && Gen.get(g2, 16).equals(ONE), "base point changed through a returned array");
				c.hit("op.misc");
			}
		}
	}
	static void mul(Ctx c) {
		Rng r = c.rng;
		Pt a = r.chance(1, 25) ? Pt.INF : r.chance(1, 3) ? Pt.G : Pt.gen(r);
		BigInteger k = scalar(r);
		BigInteger[] ra = rep(r, a);
		c.note("p=" + show(ra) + " n=" + hex(k)); c.nontrivial();
		Lay l = new Lay(r, new int[]{PW, 8}, CurvePointMath.MULTIPLY_TEMP_WORDS);
		int po = l.off[0], no = l.off[1];
		put(l, po, ra); l.put(no, k); l.arm();
		CurvePointMath.multiply(l.val, po, no, l.temp);
		Pt want = a.mul(k);
		same(c, "multiply", get(l, po), want); l.intact(c, "multiply", po, PW);
		c.hit(want.inf() ? "result.zero" : k.compareTo(N) >= 0 ? "scalar>=order" : "scalar<order");
		l.arm(); CurvePointMath.normalize(l.val, po, l.temp); norm(c, "normalize", get(l, po), want); l.intact(c, "normalize", po, PW);
	}
}
