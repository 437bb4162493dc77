package mon;

import java.math.BigInteger;
import java.util.Arrays;

/** Called by the instrumented library: what executed, which elements were touched, what outside code was called. */
public final class Hooks {
	/*---- Trace recording (single thread) ----*/
	static boolean on;
	static int count; static long hash;
	static long[] log; static boolean keep;
	static final long[] kinds = new long[6];
	static final int BLOCK = 0, INDEX = 1, LENGTH = 2, CALL = 3, VALUE = 4, DIVISION = 5;
	private static void ev(int kind, long v) {
		if (!on) return;
		kinds[kind]++;
		hash = (hash ^ v ^ (long)kind << 60) * 0x9E3779B97F4A7C15L; hash ^= hash >>> 29;
		if (keep) { if (count == log.length) log = Arrays.copyOf(log, count * 2); log[count] = v & 0x0FFFFFFFFFFFFFFFL | (long)kind << 60; }
		count++;
	}
	static void arm(boolean keepLog) { count = 0; hash = 0; keep = keepLog; if (keepLog && log == null) log = new long[1 << 16]; on = true; }
	static void disarm() { on = false; }

	public static void block(int id) { ev(BLOCK, id); }
	public static void index(Object arr, int i) { ev(INDEX, i); }
	public static void length(int n) { ev(LENGTH, n); }
	public static void call(int id) { ev(CALL, id); }
	public static void value(long v) { ev(VALUE, v); }
	public static void value(int v) { ev(VALUE, v); }
	public static void value(boolean v) { ev(VALUE, v ? 1 : 0); }
	public static void value(float v) { ev(VALUE, Float.floatToRawIntBits(v)); }
	public static void value(double v) { ev(VALUE, Double.doubleToRawLongBits(v)); }
	public static void value(Object o) { ev(VALUE, o == null ? 0 : o instanceof BigInteger || o instanceof String || o instanceof Number ? o.hashCode() : o instanceof int[] ? Arrays.hashCode((int[])o) : o instanceof byte[] ? Arrays.hashCode((byte[])o) : o instanceof long[] ? Arrays.hashCode((long[])o) : 1); }
	public static void division(int a, int b) { ev(DIVISION, a * 31L + b); }
	public static void division(long a, long b) { ev(DIVISION, a * 31L + b); }

	public static void iastore(int[] a, int i, int v) { ev(INDEX, i); a[i] = v; }
	public static void lastore(long[] a, int i, long v) { ev(INDEX, i); a[i] = v; }
	public static void bastore(Object a, int i, int v) { ev(INDEX, i); if (a instanceof boolean[]) ((boolean[])a)[i] = (v & 1) != 0; else ((byte[])a)[i] = (byte)v; }
	public static void castore(char[] a, int i, int v) { ev(INDEX, i); a[i] = (char)v; }
	public static void sastore(short[] a, int i, int v) { ev(INDEX, i); a[i] = (short)v; }
	public static void aastore(Object[] a, int i, Object v) { ev(INDEX, i); a[i] = v; }

	/*---- Schedule perturbation (many threads) ----*/
	public static final class Worker extends Thread {
		long state, perturbed, seen; int rate = 1 << 12;
		Worker(Runnable r, long seed) { super(r); state = seed | 1; }
	}
	/** The closer to a shared place (fields), the more often a thread is held back. */
	public static void pause(int heat) {
		Thread t = Thread.currentThread();
		if (!(t instanceof Worker)) return;
		Worker w = (Worker)t;
		long s = w.state; s ^= s << 13; s ^= s >>> 7; s ^= s << 17; w.state = s; w.seen++;
		if (heat >= 50 ? (s >>> 40 & 1023) >= heat : (s >>> 40 & w.rate - 1) >= heat) return;
		w.perturbed++;
		int k = (int)(s >>> 33 & 7);
		if (k < 4) Thread.yield();
		else { int n = (int)(s >>> 20 & 0x3FF) << (k - 4); for (int i = 0; i < n; i++) Thread.onSpinWait(); }
	}
}
