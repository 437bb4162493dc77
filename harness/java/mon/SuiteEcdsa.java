package mon;

import static mon.Gen.*;
import io.nayuki.bitcoin.crypto.Ecdsa;
import io.nayuki.bitcoin.crypto.Sha256Hash;
import java.math.BigInteger;
import java.util.Arrays;

final class SuiteEcdsa {
	static void register() { Mon.SUITES.put("jsign", SuiteEcdsa::sign); Mon.SUITES.put("jhmacsign", SuiteEcdsa::hmac); Mon.SUITES.put("jverify", SuiteEcdsa::verify); }
	static BigInteger key(Rng r) { BigInteger k; do k = scalar(r).mod(N); while (k.signum() == 0); return k; }
	static BigInteger hash(Rng r) {
		switch (r.below(6)) {
			case 0: return N.add(below(r, M.subtract(N)));
			case 1: return M.subtract(ONE).subtract(BigInteger.valueOf(r.below(4)));
			case 2: return wrap(N.subtract(TWO).add(BigInteger.valueOf(r.below(5))));
			default: return v256(r);
		}
	}
	static BigInteger targetS(Rng r) {
		BigInteger h = N.shiftRight(1);
		switch (r.below(8)) {
			case 0: return ZERO;
			case 1: return BigInteger.valueOf(1 + r.below(3));
			case 2: return h;
			case 3: return h.add(ONE);
			case 4: return N.subtract(BigInteger.valueOf(1 + r.below(3)));
			case 5: return h.add(BigInteger.valueOf(r.below(8) - 3));
			default: return below(r, N);
		}
	}
	static void once(Ctx c, BigInteger d, BigInteger z, BigInteger k, boolean hm) {
		Rng r = c.rng;
		BigInteger nonce = hm ? new BigInteger(1, Oracle.hmac256(be32(d), be32(z))) : k;
		BigInteger[] want = Oracle.sign(d, z, nonce);
		int[] dw = words(d), kw = words(k);
		Sha256Hash h = new Sha256Hash(be32(z));
		BigInteger s1 = v256(r), s2 = v256(r);
		int[] or = words(s1), os = words(s2);
		boolean got = hm ? Ecdsa.signWithHmacNonce(dw, h, or, os) : Ecdsa.sign(dw, h, kw, or, os);
		c.check(got == (want != null), "signing returned %s, expected %s", got, want != null);
		if (want == null) {
			c.check(get(or, 0).equals(s1) && get(os, 0).equals(s2), "failed signing changed an output");
			c.hit(nonce.signum() == 0 ? "fail.nonce=0" : nonce.compareTo(N) >= 0 ? "fail.nonce>=order" : "fail.s=0");
		} else {
			c.check(get(or, 0).equals(want[0]) && get(os, 0).equals(want[1]), "signature r=%s s=%s, expected r=%s s=%s", hex(get(or, 0)), hex(get(os, 0)), hex(want[0]), hex(want[1]));
			c.hit(hm ? "ok.hmac" : "ok"); if (z.compareTo(N) >= 0) c.hit("ok.hash>=order");
		}
		c.check(get(dw, 0).equals(d) && get(kw, 0).equals(k) && Arrays.equals(h.toBytes(), be32(z)), "signing modified an input");
	}
	/** Key, hash and nonce (in v), often solved for a chosen s or a chosen product. Returns the kind. */
	static String triple(Ctx c, BigInteger[] v) {
		Rng r = c.rng;
		BigInteger d = key(r), z = hash(r), k; String kind;
		if (c.idx == 0) { k = ONE; d = GX.modInverse(N).negate().mod(N); z = M.subtract(ONE); kind = "sum>=2n"; }
		else switch (r.below(8)) {
			case 0: k = r.chance(1, 2) ? ZERO : N.add(r.chance(1, 2) ? BigInteger.valueOf(r.below(5)) : below(r, M.subtract(N))); kind = "bad-nonce"; break;
			case 1: case 2: case 3: {
				k = key(r); BigInteger rr = Pt.G.mul(k).x.mod(N), s = targetS(r);
				d = s.multiply(k).subtract(z).multiply(rr.modInverse(N)).mod(N); if (d.signum() == 0) d = ONE;
				kind = s.signum() == 0 ? "s=0" : "chosen-s"; break;
			}
			case 4: {
				k = key(r); BigInteger rr = Pt.G.mul(k).x.mod(N);
				BigInteger t = r.chance(1, 2) ? N.subtract(BigInteger.valueOf(1 + r.below(1000))) : N.subtract(z.mod(N)).add(BigInteger.valueOf(r.below(5) - 2)).mod(N);
				d = t.multiply(rr.modInverse(N)).mod(N); if (d.signum() == 0) d = ONE;
				kind = "chosen-rd"; break;
			}
			default: k = key(r); kind = "random";
		}
		v[0] = d; v[1] = z; v[2] = k; return kind;
	}
	static ForcedDriver forced;
	static void load() throws Exception { if (forced == null) forced = (ForcedDriver)new Instrument(Instrument.FORCE, "mon.ForcedOps").loadClass("mon.ForcedOps").getConstructor().newInstance(); }
	/** The derived nonce when the HMAC has an improbable value (a copy of the library with its HMAC calls answered by the monitor). */
	static void forcedNonce(Ctx c) throws Exception {
		load();
		Rng r = c.rng; BigInteger[] v = new BigInteger[3]; String kind = triple(c, v); BigInteger d = v[0], z = v[1], k = v[2];
		c.note("priv=" + hex(d) + " hash=" + hex(z) + " HMAC forced to " + hex(k) + " kind=" + kind); c.nontrivial();
		BigInteger s1 = v256(r), s2 = v256(r); int[] dw = words(d), or = words(s1), os = words(s2);
		Boolean got = forced.sign(dw, be32(z), be32(k), or, os);
		if (got == null) { c.hit("forced.not-applicable"); return; }
		BigInteger[] want = Oracle.sign(d, z, k);
		c.hit("forced." + kind + (want == null ? ".refused" : ""));
		c.check(got == (want != null), "signing with the derived nonce returned %s, expected %s", got, want != null);
		BigInteger e1 = want == null ? s1 : want[0], e2 = want == null ? s2 : want[1];
		c.check(get(or, 0).equals(e1) && get(os, 0).equals(e2), "outputs r=%s s=%s, expected r=%s s=%s", hex(get(or, 0)), hex(get(os, 0)), hex(e1), hex(e2));
		c.check(get(dw, 0).equals(d), "signing modified the key");
	}
	/** Signing when the nonce's point has a chosen x-coordinate: r is that coordinate reduced modulo the order, and zero is refused. */
	static void forcedPoint(Ctx c) throws Exception {
		load();
		Rng r = c.rng; BigInteger d = key(r), z = hash(r), k = key(r), x, y2; String kind;
		do {
			switch (r.below(6)) {
				case 0: kind = "x=order"; x = N; break;
				case 1: kind = "x>order"; x = N.add(BigInteger.valueOf(1 + r.below(40))); break;
				case 2: kind = "x>order"; x = N.add(below(r, P.subtract(N))); break;
				case 3: kind = "x-near-prime"; x = P.subtract(BigInteger.valueOf(1 + r.below(40))); break;
				case 4: kind = "x<order"; x = N.subtract(BigInteger.valueOf(1 + r.below(40))); break;
				default: kind = "x-any"; x = below(r, P);
			}
			y2 = x.modPow(THREE, P).add(BigInteger.valueOf(7)).mod(P);
		} while (!y2.modPow(P.subtract(ONE).shiftRight(1), P).equals(ONE));
		BigInteger y = y2.modPow(P.add(ONE).shiftRight(2), P), rr = x.mod(N), scale = r.chance(1, 2) ? ONE : TWO.add(below(r, P.subtract(TWO)));
		if (r.chance(1, 2)) y = P.subtract(y);
		if (rr.signum() != 0 && r.chance(1, 2)) { d = targetS(r).multiply(k).subtract(z).multiply(rr.modInverse(N)).mod(N); if (d.signum() == 0) d = ONE; }
		c.note("priv=" + hex(d) + " hash=" + hex(z) + " nonce=" + hex(k) + " nonce point forced to x=" + hex(x) + " z=" + hex(scale)); c.nontrivial();
		int[] base = new int[24]; put(base, 0, Pt.G.x); put(base, 8, Pt.G.y); put(base, 16, ONE);
		int[] q = new int[24]; put(q, 0, x.multiply(scale).mod(P)); put(q, 8, y.multiply(scale).mod(P)); put(q, 16, scale);
		BigInteger s1 = v256(r), s2 = v256(r); int[] dw = words(d), kw = words(k), or = words(s1), os = words(s2);
		Boolean got = forced.signPoint(dw, be32(z), kw, base, q, or, os);
		if (got == null) { c.hit("forced-point.not-applicable"); return; }
		BigInteger s = k.modInverse(N).multiply(z.add(rr.multiply(d))).mod(N);
		boolean want = rr.signum() != 0 && s.signum() != 0;
		if (s.compareTo(N.subtract(s)) > 0) s = N.subtract(s);
		c.hit("forced-point." + kind + (want ? "" : ".refused"));
		c.check(got == want, "signing returned %s, expected %s (%s)", got, want, kind);
		BigInteger e1 = want ? rr : s1, e2 = want ? s : s2;
		c.check(get(or, 0).equals(e1) && get(os, 0).equals(e2), "outputs r=%s s=%s, expected r=%s s=%s", hex(get(or, 0)), hex(get(os, 0)), hex(e1), hex(e2));
		c.check(get(dw, 0).equals(d) && get(kw, 0).equals(k), "signing modified an input");
	}
	static void sign(Ctx c) throws Exception {
		if (c.idx % 6 == 5) { forcedPoint(c); return; }
		Rng r = c.rng; BigInteger[] v = new BigInteger[3]; String kind = triple(c, v); BigInteger d = v[0], z = v[1], k = v[2];
		c.note("priv=" + hex(d) + " hash=" + hex(z) + " nonce=" + hex(k) + " kind=" + kind); c.nontrivial(); c.hit("kind." + kind);
		once(c, d, z, k, false);
		if (c.idx % 64 == 0) {
			int[] w8 = words(d), o = new int[8], o2 = new int[8], w7 = new int[r.chance(1, 2) ? 7 : 9]; Sha256Hash h = new Sha256Hash(be32(z));
			c.rejects(IllegalArgumentException.class, "sign with a key of wrong length", () -> Ecdsa.sign(w7, h, w8, o, o2));
			c.rejects(IllegalArgumentException.class, "sign with a nonce of wrong length", () -> Ecdsa.sign(w8, h, w7, o, o2));
			c.rejects(IllegalArgumentException.class, "sign with an output of wrong length", () -> Ecdsa.sign(w8, h, w8, w7, o2));
			c.rejects(IllegalArgumentException.class, "sign with an output of wrong length", () -> Ecdsa.sign(w8, h, w8, o, w7));
			c.rejects(NullPointerException.class, "sign with null hash", () -> Ecdsa.sign(w8, null, w8, o, o2));
			c.rejects(NullPointerException.class, "sign with null key", () -> Ecdsa.sign(null, h, w8, o, o2));
			c.rejects(NullPointerException.class, "sign with null output", () -> Ecdsa.sign(w8, h, w8, o, null));
			c.check(get(o, 0).signum() == 0 && get(o2, 0).signum() == 0, "rejected call changed an output");
			c.hit("argument-checks");
		}
	}
	static void hmac(Ctx c) throws Exception {
		if (c.idx % 3 == 2) { forcedNonce(c); return; }
		Rng r = c.rng;
		BigInteger d = key(r), z = hash(r);
		c.note("priv=" + hex(d) + " hash=" + hex(z)); c.nontrivial();
		once(c, d, z, ZERO, true);
		if (c.idx % 4 == 0) { once(c, d, z, ZERO, true); c.hit("repeat"); }
	}
	static BigInteger[] tri(Pt q) { return q.inf() ? new BigInteger[]{ZERO, ONE, ZERO} : new BigInteger[]{q.x, q.y, ONE}; }
	static void v1(Ctx c, String kind, BigInteger[] q, BigInteger z, BigInteger rr, BigInteger ss) {
		boolean want = Oracle.verify(q[0], q[1], q[2], z, rr, ss);
		c.note(kind + " q=" + SuiteCurve.show(q) + " hash=" + hex(z) + " r=" + hex(rr) + " s=" + hex(ss)); c.nontrivial();
		int[] qw = new int[24]; for (int i = 0; i < 3; i++) put(qw, 8 * i, q[i]);
		int[] rw = words(rr), sw = words(ss); Sha256Hash h = new Sha256Hash(be32(z));
		boolean got = Ecdsa.verify(qw, h, rw, sw);
		c.hit((want ? "accept." : "reject.") + kind);
		c.check(got == want, "verify returned %s, expected %s (%s)", got, want, kind);
		c.check(get(qw, 0).equals(q[0]) && get(qw, 8).equals(q[1]) && get(qw, 16).equals(q[2]) && get(rw, 0).equals(rr) && get(sw, 0).equals(ss) && Arrays.equals(h.toBytes(), be32(z)), "verify modified an input");
	}
	static BigInteger nz(BigInteger v) { return v.signum() == 0 ? ONE : v; }
	static void verify(Ctx c) {
		Rng r = c.rng;
		int kind = c.idx < 56 ? (int)(c.idx % 28) : r.below(28);
		BigInteger d, z, k; BigInteger[] g; Pt Q;
		do { d = key(r); z = hash(r); k = key(r); g = Oracle.sign(d, z, k); } while (g == null);
		Q = Pt.G.mul(d);
		BigInteger[] q = tri(Q);
		switch (kind) {
			case 0: v1(c, "valid", q, z, g[0], g[1]); break;
			case 1: v1(c, "high-s", q, z, g[0], N.subtract(g[1])); break;
			case 2: v1(c, "altered-hash", q, z.flipBit(r.below(256)), g[0], g[1]); break;
			case 3: v1(c, "altered-r", q, z, g[0].flipBit(r.below(256)), g[1]); break;
			case 4: v1(c, "altered-s", q, z, g[0], g[1].flipBit(r.below(256))); break;
			case 5: v1(c, "other-key", tri(r.chance(1, 2) ? Q.neg() : Q.add(Pt.G)), z, g[0], g[1]); break;
			case 6: { BigInteger s = TWO.add(below(r, P.subtract(TWO))); v1(c, "unnormalized-key", new BigInteger[]{Q.x.multiply(s).mod(P), Q.y.multiply(s).mod(P), s}, z, g[0], g[1]); break; }
			case 7: {
				BigInteger s = key(r); Pt p = Pt.G.mul(z.multiply(s.modInverse(N)).mod(N));
				v1(c, "zero-key", SuiteCurve.rep(r, Pt.INF), z, p.inf() ? ONE : nz(p.x.mod(N)), s); break;
			}
			case 8: {
				Pt B = Pt.gen(r); BigInteger u = TWO.add(below(r, P.subtract(THREE))), u2 = u.multiply(u).mod(P);
				BigInteger t = key(r); Pt T = B.mul(t); BigInteger rr = nz(T.x.multiply(u2).mod(P).mod(N)), s = rr.multiply(t.modInverse(N)).mod(N);
				v1(c, "isomorphic-curve-key", new BigInteger[]{B.x.multiply(u2).mod(P), B.y.multiply(u2).multiply(u).mod(P), ONE}, r.chance(1, 2) ? ZERO : N, rr, s); break;
			}
			case 9: {
				BigInteger[] w;
				switch (r.below(4)) { case 0: w = new BigInteger[]{Q.x, Q.y.add(ONE).mod(P), ONE}; break; case 1: w = new BigInteger[]{Q.x.add(ONE).mod(P), Q.y, ONE}; break; case 2: w = new BigInteger[]{Q.y, Q.x, ONE}; break; default: w = new BigInteger[]{below(r, P), below(r, P), ONE}; }
				v1(c, "off-curve-key", w, z, g[0], g[1]); break;
			}
			case 10: {
				BigInteger rr = Pt.G.mul(k).x.mod(N), s = ONE.add(below(r, M.subtract(N).subtract(ONE)));
				BigInteger dd = nz(s.multiply(k).subtract(z).multiply(rr.modInverse(N)).mod(N)); Pt W = Pt.G.mul(dd);
				v1(c, "small-s", tri(W), z, rr, s); v1(c, "s+order", tri(W), z, rr, s.add(N)); break;
			}
			case 11: case 12: case 13: {
				boolean big = kind != 13; Pt R;
				do R = Pt.lift(big ? N.add(below(r, P.subtract(N))) : ONE.add(below(r, M.subtract(N).subtract(ONE))), r.chance(1, 2)); while (R == null);
				BigInteger rr = R.x.mod(N), s = key(r); if (rr.signum() == 0) break;
				BigInteger ri = rr.modInverse(N);
				Pt W = R.mul(s.multiply(ri).mod(N)).add(Pt.G.mul(z.negate().multiply(ri).mod(N)));
				if (W.inf()) break;
				v1(c, big ? "x>=order" : "small-r", tri(W), z, rr, s);
				if (rr.add(N).compareTo(M) < 0) v1(c, big ? "x>=order.unreduced-r" : "r+order", tri(W), z, rr.add(N), s);
				break;
			}
			case 14: v1(c, "r=0", q, z, ZERO, g[1]); v1(c, "s=0", q, z, g[0], ZERO); break;
			case 15: { BigInteger big = N.add(below(r, M.subtract(N))); v1(c, "r>=order", q, z, r.chance(1, 3) ? N : big, g[1]); v1(c, "s>=order", q, z, g[0], r.chance(1, 3) ? N : big); break; }
			case 16: { BigInteger rr = key(r), s = key(r); v1(c, "sum-infinity", q, rr.multiply(d).negate().mod(N), rr, s); break; }
			case 17: { BigInteger rr = Pt.G.mul(k).x.mod(N), zz = rr.multiply(d).mod(N); v1(c, "final-doubling", q, zz, rr, zz.shiftLeft(1).multiply(k.modInverse(N)).mod(N)); break; }
			case 18: { BigInteger zz = r.chance(1, 2) ? ZERO : N; BigInteger[] w = Oracle.sign(d, zz, k); if (w != null) v1(c, "u1=0", q, zz, w[0], w[1]); break; }
			case 19: { BigInteger dd = r.chance(1, 2) ? BigInteger.valueOf(1 + r.below(4)) : N.subtract(BigInteger.valueOf(1 + r.below(4))); BigInteger[] w = Oracle.sign(dd, z, k); if (w != null) v1(c, "special-key", tri(Pt.G.mul(dd)), z, w[0], w[1]); break; }
			case 26:
				for (;;) {   // X, Y satisfy the affine equation although Z is not 1, and (X/Z, Y/Z) is on the curve as well
					Pt W = Pt.gen(r);
					if (W.inf()) continue;
					BigInteger disc = W.x.pow(3).multiply(BigInteger.valueOf(28)).add(BigInteger.valueOf(49)).mod(P), root = disc.modPow(P.add(ONE).shiftRight(2), P);
					if (!root.multiply(root).mod(P).equals(disc)) continue;
					BigInteger zz = (r.chance(1, 2) ? root : root.negate()).subtract(BigInteger.valueOf(7)).multiply(BigInteger.valueOf(14).modInverse(P)).mod(P);
					if (zz.signum() == 0 || zz.equals(ONE)) continue;
					BigInteger zi = zz.modInverse(P);
					BigInteger[] twin = {W.x, W.y, zz};
					Pt A = new Pt(W.x.multiply(zi).mod(P), W.y.multiply(zi).mod(P));
					c.check(A.onCurve(), "HARNESS: twin representation");
					for (Pt B : new Pt[]{A, W}) {
						BigInteger u1 = key(r), u2 = key(r); Pt R = Pt.G.mul(u1).add(B.mul(u2));
						if (R.inf()) continue;
						BigInteger rr = nz(R.x.mod(N)), s = rr.multiply(u2.modInverse(N)).mod(N), h = u1.multiply(s).mod(N);
						v1(c, "unnormalized-twin-key.normalized", tri(B), h, rr, s);
						v1(c, "unnormalized-twin-key" + (B == W ? ".affine-reading" : ""), twin, h, rr, s);
					}
					break;
				}
				break;
			case 27: v1(c, "replaced-z", new BigInteger[]{Q.x, Q.y, r.chance(1, 3) ? ZERO : TWO.add(below(r, P.subtract(TWO)))}, z, g[0], g[1]); break;
			case 20: v1(c, "swapped-r-s", q, z, g[1], g[0]); break;
			case 21: { BigInteger zz = below(r, M.subtract(N)); BigInteger[] w = Oracle.sign(d, zz, k); if (w == null) break; v1(c, "hash", q, zz, w[0], w[1]); v1(c, "hash+order", q, zz.add(N), w[0], w[1]); break; }
			case 22: {
				int[] or = new int[8], os = new int[8], qw = new int[24]; for (int i = 0; i < 3; i++) put(qw, 8 * i, q[i]);
				c.note("round trip priv=" + hex(d) + " hash=" + hex(z));
				Sha256Hash h = new Sha256Hash(be32(z));
				c.check(Ecdsa.signWithHmacNonce(words(d), h, or, os), "signing failed");
				c.check(Ecdsa.verify(qw, h, or, os), "own signature rejected"); c.hit("accept.round-trip"); break;
			}
			case 23: v1(c, "random-triple", tri(Pt.gen(r)), hash(r), v256(r), v256(r)); break;
			case 24: { BigInteger zc = r.chance(1, 2) ? ZERO : r.chance(1, 2) ? ONE.shiftLeft(32 * (1 + r.below(7))) : P.subtract(ONE); v1(c, "key-with-bad-z", new BigInteger[]{Q.x, Q.y, zc}, z, g[0], g[1]); break; }
			default: {
				int[] w8 = words(g[0]), qw = new int[24], w7 = new int[r.chance(1, 2) ? 7 : 9], q23 = new int[r.chance(1, 2) ? 23 : 25]; Sha256Hash h = new Sha256Hash(be32(z));
				for (int i = 0; i < 3; i++) put(qw, 8 * i, q[i]);
				c.rejects(IllegalArgumentException.class, "verify with a key of wrong length", () -> Ecdsa.verify(q23, h, w8, w8));
				c.rejects(IllegalArgumentException.class, "verify with r of wrong length", () -> Ecdsa.verify(qw, h, w7, w8));
				c.rejects(IllegalArgumentException.class, "verify with s of wrong length", () -> Ecdsa.verify(qw, h, w8, w7));
				c.rejects(NullPointerException.class, "verify with null key", () -> Ecdsa.verify(null, h, w8, w8));
				c.rejects(NullPointerException.class, "verify with null hash", () -> Ecdsa.verify(qw, null, w8, w8));
				c.rejects(NullPointerException.class, "verify with null s", () -> Ecdsa.verify(qw, h, w8, null));
				c.hit("argument-checks");
			}
		}
	}
}
