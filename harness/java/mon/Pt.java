package mon;

import static mon.Gen.*;
import java.math.BigInteger;

/** Affine point and an independent group law (affine for single additions, Jacobian for multiples). */
public final class Pt {
	public static final Pt INF = new Pt(null, null), G = new Pt(GX, GY);
	public final BigInteger x, y;
	public Pt(BigInteger x, BigInteger y) { this.x = x; this.y = y; }
	public boolean inf() { return x == null; }
	public boolean onCurve() { return !inf() && y.multiply(y).subtract(x.pow(3)).subtract(BigInteger.valueOf(7)).mod(P).signum() == 0; }
	public Pt neg() { return inf() ? this : new Pt(x, y.negate().mod(P)); }
	public boolean eq(Pt o) { return inf() ? o.inf() : !o.inf() && x.equals(o.x) && y.equals(o.y); }
	public String toString() { return inf() ? "infinity" : "(" + hex(x) + "," + hex(y) + ")"; }
	public Pt add(Pt b) {
		if (inf()) return b;
		if (b.inf()) return this;
		BigInteger l;
		if (x.equals(b.x)) {
			if (!y.equals(b.y) || y.signum() == 0) return INF;
			l = x.multiply(x).multiply(THREE).multiply(y.shiftLeft(1).modInverse(P)).mod(P);
		} else l = b.y.subtract(y).multiply(b.x.subtract(x).mod(P).modInverse(P)).mod(P);
		BigInteger rx = l.multiply(l).subtract(x).subtract(b.x).mod(P);
		return new Pt(rx, l.multiply(x.subtract(rx)).subtract(y).mod(P));
	}
	public Pt mul(BigInteger k) {
		if (inf()) return this;
		BigInteger X = ONE, Y = ONE, Z = ZERO;
		for (int i = k.bitLength() - 1; i >= 0; i--) {
			if (Z.signum() != 0) {   // double
				BigInteger a = X.multiply(X).mod(P), b = Y.multiply(Y).mod(P), c = b.multiply(b).mod(P), xb = X.add(b);
				BigInteger d = xb.multiply(xb).subtract(a).subtract(c).shiftLeft(1).mod(P), e = a.multiply(THREE), f = e.multiply(e).mod(P);
				BigInteger x3 = f.subtract(d.shiftLeft(1)).mod(P);
				Z = Y.multiply(Z).shiftLeft(1).mod(P);
				Y = e.multiply(d.subtract(x3)).subtract(c.shiftLeft(3)).mod(P);
				X = x3;
			}
			if (k.testBit(i)) {
				if (Z.signum() == 0) { X = x; Y = y; Z = ONE; continue; }
				BigInteger z2 = Z.multiply(Z).mod(P), h = x.multiply(z2).subtract(X).mod(P), rr = y.multiply(z2).mod(P).multiply(Z).subtract(Y).mod(P);
				if (h.signum() == 0) {
					if (rr.signum() == 0) {
						BigInteger zi = Z.modInverse(P), zi2 = zi.multiply(zi).mod(P);
						Pt q = new Pt(X.multiply(zi2).mod(P), Y.multiply(zi2).multiply(zi).mod(P));
						q = q.add(q);
						if (q.inf()) { Z = ZERO; } else { X = q.x; Y = q.y; Z = ONE; }
					} else Z = ZERO;
					continue;
				}
				BigInteger h2 = h.multiply(h).mod(P), h3 = h2.multiply(h).mod(P), v = X.multiply(h2).mod(P);
				BigInteger x3 = rr.multiply(rr).subtract(h3).subtract(v.shiftLeft(1)).mod(P);
				Y = rr.multiply(v.subtract(x3)).subtract(Y.multiply(h3)).mod(P);
				X = x3;
				Z = Z.multiply(h).mod(P);
			}
		}
		if (Z.signum() == 0) return INF;
		BigInteger zi = Z.modInverse(P), zi2 = zi.multiply(zi).mod(P);
		return new Pt(X.multiply(zi2).mod(P), Y.multiply(zi2).mod(P).multiply(zi).mod(P));
	}
	/** The point with the given x, or null. */
	public static Pt lift(BigInteger x, boolean odd) {
		BigInteger s = x.pow(3).add(BigInteger.valueOf(7)).mod(P), y = s.modPow(P.add(ONE).shiftRight(2), P);
		if (!y.multiply(y).mod(P).equals(s)) return null;
		return new Pt(x, y.testBit(0) == odd ? y : y.negate().mod(P));
	}
	public static Pt gen(Rng r) {
		switch (r.below(6)) {
			case 0: return G.mul(BigInteger.valueOf(1 + r.below(20)));
			case 1: return G.mul(N.subtract(BigInteger.valueOf(1 + r.below(20))));
			case 2: for (;;) { Pt p = lift(v256(r).mod(P), r.chance(1, 2)); if (p != null) return p; }
			case 3: for (;;) { Pt p = lift(r.chance(1, 2) ? small(r).mod(P) : P.subtract(ONE).subtract(small(r)).mod(P), r.chance(1, 2)); if (p != null) return p; }
			default: return G.mul(nonzeroBelow(r, N));
		}
	}
}
