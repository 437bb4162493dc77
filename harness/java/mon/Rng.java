package mon;

/** Deterministic generator: a case is a pure function of (seed, suite, index). */
public final class Rng {
	private long s;
	public Rng(long seed, String stream, long idx) {
		long h = 0xCBF29CE484222325L;
		for (int i = 0; i < stream.length(); i++) h = (h ^ stream.charAt(i)) * 0x100000001B3L;
		s = mix(seed * 0x9E3779B97F4A7C15L + 1) ^ mix(h) ^ mix(idx * 0xD1B54A32D192ED03L + 77);
	}
	static long mix(long z) {
		z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
		z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
		return z ^ (z >>> 31);
	}
	public long next() { s += 0x9E3779B97F4A7C15L; return mix(s); }
	public int u32() { return (int)(next() >>> 32); }
	public int below(int n) { return (int)((next() >>> 33) % n); }
	public boolean chance(int a, int b) { return below(b) < a; }
	public byte[] bytes(int n) {
		byte[] b = new byte[n];
		for (int i = 0; i < n; ) { long v = next(); for (int j = 0; j < 8 && i < n; j++, i++) b[i] = (byte)(v >>> (8 * j)); }
		return b;
	}
	public int[] words(int n) { int[] w = new int[n]; for (int i = 0; i < n; i++) w[i] = u32(); return w; }
}
