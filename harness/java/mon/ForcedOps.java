package mon;

import io.nayuki.bitcoin.crypto.*;

public final class ForcedOps implements ForcedDriver {
	private static byte[] answer; private static int calls;
	/** What the library's calls of Sha256.getHmac become. */
	public static Sha256Hash hmac(byte[] key, byte[] msg) {
		if (answer == null) return Sha256.getHmac(key, msg);
		calls++;
		return new Sha256Hash(answer.clone());
	}
	@Override public Boolean sign(int[] d, byte[] z, byte[] a, int[] r, int[] s) {
		Sha256Hash h = new Sha256Hash(z);
		answer = a; calls = 0;
		try { boolean v = Ecdsa.signWithHmacNonce(d, h, r, s); return calls == 1 ? v : null; } finally { answer = null; }
	}
	private static int[] point, base, factor; private static boolean expected;
	/** What the library's calls of CurvePointMath.multiply from other classes become. */
	public static void multiply(int[] val, int pOff, int nOff, int tempOff) {
		if (point == null) { CurvePointMath.multiply(val, pOff, nOff, tempOff); return; }
		calls++;
		for (int i = 0; i < 8; i++) if (val[nOff + i] != factor[i]) expected = false;
		for (int i = 0; i < 24; i++) if (val[pOff + i] != base[i]) expected = false;
		System.arraycopy(point, 0, val, pOff, 24);
	}
	@Override public Boolean signPoint(int[] d, byte[] z, int[] k, int[] b, int[] p, int[] r, int[] s) {
		Sha256Hash h = new Sha256Hash(z);
		point = p; base = b; factor = k.clone(); calls = 0; expected = true;
		try { boolean v = Ecdsa.sign(d, h, k, r, s); return calls == 1 && expected ? v : null; } finally { point = null; }
	}
}
