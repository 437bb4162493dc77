package mon;

import static mon.Gen.*;
import io.nayuki.bitcoin.crypto.*;
import java.math.BigInteger;
import java.util.Arrays;

public final class CtOps implements CtDriver {
	static final String[] NAMES = {"uintAdd", "uintSubtract", "uintShiftLeft1", "uintShiftRight1", "reciprocal", "fieldAdd", "fieldSubtract", "fieldMultiply2", "fieldSquare", "fieldMultiply",
		"replace", "swap", "equalTo", "lessThan", "point.twice", "point.add", "point.multiply", "point.normalize", "point.replace", "point.isOnCurve", "point.isZero",
		"Ecdsa.sign", "Ecdsa.signWithHmacNonce", "Sha256Hash(bytes)", "Sha256Hash.toBytes", "Sha256Hash.hashCode"};
	public String[] names() { return NAMES; }
	public int weight(int op) { return op == 16 || op == 21 || op == 22 ? 6 : op == 4 || op == 17 ? 3 : op == 15 ? 2 : 1; }
	int op, en, ox, oy, oz, ot; int[] val, priv, nonce, outR, outS; byte[] bytes; Sha256Hash hash; static volatile int sink; static volatile Object osink;

	static BigInteger sBelow(Rng s, int which, BigInteger m, boolean nonzero) {
		BigInteger v;
		switch (which) { case 0: v = ZERO; break; case 1: v = m.subtract(ONE); break; case 2: v = ONE; break; case 3: v = m.shiftRight(1); break; default: v = below(s, m); }
		return nonzero && v.signum() == 0 ? TWO : v;
	}
	static BigInteger s256(Rng s, int which) { return sBelow(s, which, M, false); }
	static void point(Rng s, int which, int[] val, int o, boolean norm) {
		Pt p = which == 0 ? Pt.INF : which == 1 ? Pt.G : which == 2 ? Pt.G.mul(N.subtract(ONE)) : Pt.G.mul(nonzeroBelow(s, N));
		point(s, p, val, o, norm);
	}
	static void point(Rng s, Pt p, int[] val, int o, boolean norm) {
		BigInteger z = norm || s.chance(1, 3) ? ONE : nonzeroBelow(s, P);
		put(val, o, p.inf() ? ZERO : p.x.multiply(z).mod(P)); put(val, o + 8, p.inf() ? norm ? ONE : z : p.y.multiply(z).mod(P)); put(val, o + 16, p.inf() ? ZERO : z);
	}
	static Pt pick(Rng s, int which) { return which == 0 ? Pt.INF : which == 1 ? Pt.G : which == 2 ? Pt.G.mul(N.subtract(ONE)) : Pt.G.mul(nonzeroBelow(s, N)); }
	static Pt neg(Pt p) { return p.inf() ? p : new Pt(p.x, P.subtract(p.y)); }

	public String setup(int op, Rng pub, Rng sec, int which) {
		this.op = op;
		int n = op >= 14 && op <= 20 ? 24 : 8, tempWords = op == 16 ? CurvePointMath.MULTIPLY_TEMP_WORDS : 160;
		int[] order = {0, 1, 2};
		for (int i = 2; i > 0; i--) { int j = pub.below(i + 1); int t = order[i]; order[i] = order[j]; order[j] = t; }
		boolean scratchFirst = pub.chance(1, 2);
		ox = order[0] * n; oy = order[1] * n; oz = order[2] * n; ot = 3 * n;
		if (scratchFirst) { ot = 0; ox += tempWords; oy += tempWords; oz += tempWords; }
		if (op < 14 && pub.chance(1, 4)) oz = pub.chance(1, 2) ? ox : oy;   // documented: offsets can overlap
		if (op < 4 && pub.chance(1, 8)) oy = ox;
		val = sec.words(3 * n + tempWords);
		en = sec.below(2);
		int other = sec.below(8);
		switch (op) {
			case 0: case 1: case 2: case 3: case 10: case 11: case 12: case 13: {
				BigInteger a = s256(sec, which), b = sec.chance(1, 4) ? a : sec.chance(1, 3) ? related(sec, a) : s256(sec, other);
				put(val, oy, b); put(val, ox, a); break;
			}
			case 4: {
				BigInteger m; switch (sec.below(5)) { case 0: m = N; break; case 1: m = P; break; case 2: m = M.subtract(ONE); break; case 3: m = THREE; break; default: m = v256(sec).setBit(0); }
				if (m.compareTo(THREE) < 0) m = THREE;
				BigInteger x = sBelow(sec, which, m, false);
				while (x.signum() != 0 && !x.gcd(m).equals(ONE)) x = below(sec, m);
				if (oz == oy) oz = ox;
				put(val, oy, m); put(val, ox, x); break;
			}
			case 5: case 6: case 7: case 8: case 9: {
				BigInteger a = sBelow(sec, which, P, false), b = sec.chance(1, 4) ? a : sec.chance(1, 4) ? P.subtract(a).mod(P) : sBelow(sec, other, P, false);
				put(val, oy, b); put(val, ox, a); break;
			}
			case 14: case 15: case 17: case 18: case 20: {
				Pt p = pick(sec, which), q = sec.chance(1, 4) ? p : sec.chance(1, 3) ? neg(p) : pick(sec, other);
				point(sec, p, val, ox, false); point(sec, q, val, oy, false);
				if (op == 17 && which == 3) { put(val, ox, below(sec, P)); put(val, ox + 8, below(sec, P)); put(val, ox + 16, ZERO); }   // normalize covers every z = 0 triple
				if (op == 20 && sec.chance(1, 2)) for (int i = 0; i < 24; i += 8) put(val, ox + i, sBelow(sec, sec.below(6), P, false));
				break;
			}
			case 16: point(sec, pick(sec, other), val, ox, false); put(val, oy, s256(sec, which)); break;
			case 19: {
				point(sec, pick(sec, which), val, ox, true);
				if (sec.chance(1, 3)) put(val, ox + 8, below(sec, P));
				if (sec.chance(1, 6)) { put(val, ox, ZERO); }
				break;
			}
			case 21: case 22:
				priv = words(sBelow(sec, which, N, true)); nonce = words(sBelow(sec, other, N, true)); outR = new int[8]; outS = new int[8];
				hash = new Sha256Hash(be32(s256(sec, sec.below(8)))); break;
			default: bytes = be32(s256(sec, which)); if (sec.chance(1, 2)) bytes = sec.bytes(32); hash = new Sha256Hash(bytes.clone());
		}
		return NAMES[op] + " offsets " + ox + "," + oy + "," + oz + "," + ot + " enable=" + en + (op >= 21 ? op <= 22 ? " key=" + hex(get(priv, 0)) + " nonce=" + hex(get(nonce, 0)) + " hash=" + hex(hash.toBytes()) : " hash=" + hex(bytes)
			: " x=" + hex(get(val, ox)) + (n == 24 ? "," + hex(get(val, ox + 8)) + "," + hex(get(val, ox + 16)) : "") + " y=" + hex(get(val, oy)) + (n == 24 ? "," + hex(get(val, oy + 8)) + "," + hex(get(val, oy + 16)) : ""));
	}
	public boolean run() {
		switch (op) {
			case 0: sink = Int256Math.uintAdd(val, ox, oy, en, oz); break;
			case 1: sink = Int256Math.uintSubtract(val, ox, oy, en, oz); break;
			case 2: sink = Int256Math.uintShiftLeft1(val, ox, oz); break;
			case 3: Int256Math.uintShiftRight1(val, ox, en, oz); break;
			case 4: Int256Math.reciprocal(val, ox, oy, oz, ot); break;
			case 5: Int256Math.fieldAdd(val, ox, oy, oz, ot); break;
			case 6: Int256Math.fieldSubtract(val, ox, oy, oz, ot); break;
			case 7: Int256Math.fieldMultiply2(val, ox, oz, ot); break;
			case 8: Int256Math.fieldSquare(val, ox, oz, ot); break;
			case 9: Int256Math.fieldMultiply(val, ox, oy, oz, ot); break;
			case 10: Int256Math.replace(val, ox, oy, en); break;
			case 11: Int256Math.swap(val, ox, oy, en); break;
			case 12: sink = Int256Math.equalTo(val, ox, oy); break;
			case 13: sink = Int256Math.lessThan(val, ox, oy); break;
			case 14: CurvePointMath.twice(val, ox, ot); break;
			case 15: CurvePointMath.add(val, ox, oy, ot); break;
			case 16: CurvePointMath.multiply(val, ox, oy, ot); break;
			case 17: CurvePointMath.normalize(val, ox, ot); break;
			case 18: CurvePointMath.replace(val, ox, oy, en); break;
			case 19: sink = CurvePointMath.isOnCurve(val, ox, ot); break;
			case 20: sink = CurvePointMath.isZero(val, ox); break;
			case 21: return Ecdsa.sign(priv, hash, nonce, outR, outS);
			case 22: return Ecdsa.signWithHmacNonce(priv, hash, outR, outS);
			case 23: osink = new Sha256Hash(bytes); break;
			case 24: osink = hash.toBytes(); break;
			default: sink = hash.hashCode();
		}
		return true;
	}
}
