package mon;

import static mon.Gen.*;
import io.nayuki.bitcoin.crypto.*;
import java.util.Arrays;

/** Digests and HMACs of byte arrays, and messages long enough to overflow 32-bit length arithmetic. */
final class SuiteHash {
	interface F { byte[] of(byte[] m); }
	interface H { byte[] of(byte[] k, byte[] m); }
	static byte[] s256(byte[] m) { return Sha256.getHash(m).toBytes(); }
	static byte[] s256d(byte[] m) { return Sha256.getDoubleHash(m).toBytes(); }
	static byte[] h256(byte[] k, byte[] m) { return Sha256.getHmac(k, m).toBytes(); }
	static void register() {
		Mon.SUITES.put("jsha256", c -> run(c, 64, 56, new F[]{SuiteHash::s256, SuiteHash::s256d}, new F[]{Oracle::sha256, Oracle::sha256d}, SuiteHash::h256, Oracle::hmac256));
		Mon.SUITES.put("jsha512", c -> run(c, 128, 112, new F[]{Sha512::getHash}, new F[]{Oracle::sha512}, Sha512::getHmac, Oracle::hmac512));
		Mon.SUITES.put("jripemd160", c -> run(c, 64, 56, new F[]{Ripemd160::getHash}, new F[]{Oracle::ripemd160}, null, null));
		Mon.SUITES.put("jkeccak256", c -> run(c, 136, 135, new F[]{Keccak256::getHash}, new F[]{Oracle::keccak}, null, null));
		for (String a : ALGS) Mon.SUITES.put("jlong-" + a, c -> lengthy(c, a));
		Mon.SUITES.put("jhuge-sha256", c -> huge(c, "sha256"));
		Mon.SUITES.put("jhuge-sha512", c -> huge(c, "sha512"));
		Mon.SUITES.put("jhuge-ripemd160", c -> huge(c, "ripemd160"));
		Mon.SUITES.put("jhuge-keccak256", c -> huge(c, "keccak256"));
	}
	static int len(Rng r, int block, int limit) {
		switch (r.below(16)) {
			case 0: case 1: case 2: case 3: return r.below(3 * block);
			case 4: case 5: case 6: return Math.max(0, block * r.below(20) + r.below(7) - 3);
			case 7: case 8: case 9: return Math.max(0, block * r.below(20) + limit + r.below(5) - 2);
			case 10: return r.below(5000);
			case 11: return r.chance(1, 20) ? 30000 + r.below(140000) : r.below(9000);
			default: return r.below(block + 2);
		}
	}
	static byte[] fill(Rng r, int n) {
		byte[] b;
		switch (r.below(6)) {
			case 0: b = new byte[n]; break;
			case 1: b = new byte[n]; Arrays.fill(b, (byte)-1); break;
			case 2: b = new byte[n]; if (n > 0) b[r.below(n)] = (byte)(1 << r.below(8)); break;
			case 3: { b = new byte[n]; Arrays.fill(b, (byte)r.u32()); break; }
			default: b = r.bytes(n);
		}
		if (n > 0 && r.chance(1, 4)) b[n - 1] = (byte)(r.chance(1, 2) ? 0x80 : 0);
		return b;
	}
	static void run(Ctx c, int block, int limit, F[] fs, F[] os, H h, H oh) {
		Rng r = c.rng;
		byte[] m = fill(r, c.idx < 3 * block ? (int)c.idx : len(r, block, limit)), k1;
		if (c.idx >= 3 * block && r.chance(1, 3)) Steer.steer(c, m, block, limit);
		k1 = m.clone();
		c.note("length " + m.length + " message " + hexShort(m)); c.nontrivial();
		c.hit("tail." + (m.length % block < limit ? m.length % block == limit - 1 ? "last-fit" : "one-block" : m.length % block == limit ? "first-spill" : "two-blocks")); if (m.length >= 30000) c.hit("long");
		int which = fs.length == 1 ? 0 : c.idx % 4 == 3 ? 1 : 0;
		byte[] want = os[which].of(m), got = fs[which].of(m);
		c.check(Arrays.equals(got, want), "digest %s, expected %s", hex(got), hex(want));
		c.check(Arrays.equals(m, k1), "hashing changed the message");
		c.hit("digest" + which);
		// Later calls, changed arguments and changed results must not matter.
		byte[] m2 = fill(r, r.below(2 * block + 2)), w2 = os[which].of(m2);
		Arrays.fill(got, (byte)r.u32());
		byte[] g2 = fs[which].of(m2);
		c.check(Arrays.equals(g2, w2), "second digest %s, expected %s for %s", hex(g2), hex(w2), hexShort(m2));
		byte[] g3 = fs[which].of(m);
		c.check(Arrays.equals(g3, want), "digest after other calls %s, expected %s", hex(g3), hex(want));
		if (m.length > 0) m[r.below(m.length)] ^= 1 + r.below(255);
		c.check(Arrays.equals(g3, want) && Arrays.equals(g2, w2), "a result changed after a later call or a change of its argument");
		if (h == null) { if (c.idx % 128 == 0) c.rejects(NullPointerException.class, "hash of null", () -> fs[0].of(null)); return; }
		if (c.idx % 2 == 0) {
			int kl; switch (r.below(6)) { case 0: kl = r.below(4); break; case 1: kl = block + r.below(5) - 2; break; case 2: kl = block + r.below(3 * block); break; case 3: kl = 2 * block + r.below(3) - 1; break; default: kl = r.below(block + 1); }
			byte[] key = r.chance(1, 12) ? m2 : fill(r, c.idx < 800 ? (int)(c.idx / 2) : kl), kk = key.clone(), mm = m2.clone();
			c.note("hmac key " + hexShort(key) + " (" + key.length + ") message " + hexShort(m2) + " (" + m2.length + ")"); c.nontrivial();
			byte[] e = oh.of(key, m2), g = h.of(key, m2);
			c.check(Arrays.equals(g, e), "HMAC %s, expected %s", hex(g), hex(e));
			c.check(Arrays.equals(key, kk) && Arrays.equals(m2, mm), "HMAC changed an argument");
			c.hit(key.length > block ? "hmac.long-key" : key.length == block ? "hmac.block-key" : "hmac.short-key");
			g = h.of(key, m2);
			c.check(Arrays.equals(g, e), "repeated HMAC %s, expected %s", hex(g), hex(e));
		}
		if (c.idx % 128 == 0) {
			for (F f : fs) c.rejects(NullPointerException.class, "hash of null", () -> f.of(null));
			byte[] x = r.bytes(r.below(200));
			c.rejects(NullPointerException.class, "HMAC with null key", () -> h.of(null, x));
			c.rejects(NullPointerException.class, "HMAC with null message", () -> h.of(x, null));
			c.hit("null-checks");
		}
	}
	static byte[] big(Rng r, int n) {
		byte[] b = new byte[n];
		long s = r.next();
		for (int i = 0; i < n; i++) { if ((i & 7) == 0) s = s * 6364136223846793005L + 1442695040888963407L; b[i] = (byte)(s >>> (8 * (i & 7))); }
		return b;
	}
	/** The residues of a length modulo the block size at which padding and block loops change their course. */
	static int residue(Rng r, int k, int block, int limit) {
		switch (k) { case 0: return block - 1; case 1: return 0; case 2: return limit; case 3: return limit - 1; case 4: return 1; case 5: return block - 2 - r.below(8); default: return r.below(block); }
	}
	static int at(int n, int block, int res) { return n / block * block + res; }
	static final String[] ALGS = {"sha256", "sha512", "ripemd160", "keccak256"};
	static int block(String a) { return a.equals("sha512") ? 128 : a.equals("keccak256") ? 136 : 64; }
	static int limit(String a) { return a.equals("sha512") ? 112 : a.equals("keccak256") ? 135 : 56; }
	/** Messages of 2^15 to 2^26 bytes, every power of two with every residue class. */
	static void lengthy(Ctx c, String alg) {
		Rng r = c.rng;
		int e = 15 + (int)(c.idx / 7 % 11), b = block(alg), n = at((1 << e) + r.below(1 << e), b, residue(r, (int)(c.idx % 7), b, limit(alg)));
		boolean hmac = c.idx / 77 % 2 == 1 && (alg.equals("sha256") || alg.equals("sha512")), longKey = hmac && r.chance(1, 2);
		c.note("length " + n + (hmac ? longKey ? " as HMAC key" : " with HMAC key" : "")); c.nontrivial();
		byte[] m = big(r, n), key = r.bytes(r.below(200)), k = longKey ? m : key, t = longKey ? key : m, got, want;
		switch (alg) {
			case "sha256": got = hmac ? h256(k, t) : s256(m); want = hmac ? Oracle.hmac256(k, t) : Oracle.sha256(m); break;
			case "sha512": got = hmac ? Sha512.getHmac(k, t) : Sha512.getHash(m); want = hmac ? Oracle.hmac512(k, t) : Oracle.sha512(m); break;
			case "ripemd160": got = Ripemd160.getHash(m); want = Oracle.ripemd160(m); break;
			default: got = Keccak256.getHash(m); want = Oracle.keccak(m);
		}
		c.check(Arrays.equals(got, want), "digest %s, expected %s", hex(got), hex(want));
		c.hit("lengthy.2^" + e + (hmac ? longKey ? ".hmac-key" : ".hmac" : ""));
	}
	/** Bit lengths around 2^31 and 2^32, where 32-bit length arithmetic would wrap. */
	static void huge(Ctx c, String alg) {
		Rng r = c.rng;
		int n; boolean hm = false;
		switch ((int)c.idx) {
			case 0: n = (1 << 28) + r.below(200); break;
			case 1: n = (1 << 29) + r.below(200); break;
			case 2: n = (1 << 28) - 1 - r.below(60); hm = true; break;
			case 3: n = (1 << 29) - 1 - r.below(60); hm = true; break;
			case 4: n = (1 << 29) * 2 + r.below(200); break;
			default: n = (1 << 28) * 3 + r.below(1000);
		}
		boolean hmac = hm && (alg.equals("sha256") || alg.equals("sha512"));
		if (!hmac) n = at(n, block(alg), residue(r, r.below(7), block(alg), limit(alg)));
		c.note("length " + n + (hmac ? " with HMAC key" : "")); c.nontrivial();
		byte[] m = big(r, n), got, want, key = r.bytes(40);
		switch (alg) {
			case "sha256": got = hmac ? h256(key, m) : s256(m); want = hmac ? Oracle.hmac256(key, m) : Oracle.sha256(m); break;
			case "sha512": got = hmac ? Sha512.getHmac(key, m) : Sha512.getHash(m); want = hmac ? Oracle.hmac512(key, m) : Oracle.sha512(m); break;
			case "ripemd160": got = Ripemd160.getHash(m); want = Oracle.ripemd160(m); break;
			default: got = Keccak256.getHash(m); want = Oracle.keccak(m);
		}
		c.check(Arrays.equals(got, want), "digest %s, expected %s", hex(got), hex(want));
		c.hit(hmac ? "huge.hmac" : "huge");
	}
}
