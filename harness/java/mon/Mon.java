package mon;

import java.io.*;
import java.lang.management.*;
import java.nio.*;
import java.nio.channels.FileChannel;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

/** Runner: Mon suite --seed S --from A --to B --shard i/n --out f [--journal f] [--only k] [--thorough] */
public final class Mon {
	public interface Case { void run(Ctx c) throws Exception; }
	static final Map<String,Case> SUITES = new TreeMap<>();

	static final class Journal {
		final MappedByteBuffer b;
		volatile long seq;
		Journal(String path) throws IOException {
			try (FileChannel ch = FileChannel.open(Paths.get(path), StandardOpenOption.CREATE, StandardOpenOption.READ, StandardOpenOption.WRITE)) { b = ch.map(FileChannel.MapMode.READ_WRITE, 0, 16 + 16000); }
			b.order(ByteOrder.LITTLE_ENDIAN);
		}
		void start(long idx) { b.putLong(0, idx); seq++; b.put(16, (byte)0); }
		void detail(String d) {
			byte[] x = d.getBytes(StandardCharsets.ISO_8859_1);
			int n = Math.min(x.length, 15990);
			for (int i = 0; i < n; i++) b.put(16 + i, x[i]);
			b.put(16 + n, (byte)0);
		}
	}
	static String where(Throwable t) {
		StringBuilder sb = new StringBuilder();
		int n = 0;
		for (StackTraceElement e : t.getStackTrace()) { if (n++ >= 6) break; sb.append(" at ").append(e); }
		return sb.toString();
	}
	static String js(String s) {
		StringBuilder o = new StringBuilder("\"");
		for (int i = 0; i < s.length(); i++) { char ch = s.charAt(i); if (ch == '"' || ch == '\\') o.append('\\').append(ch); else if (ch < 32 || ch > 126) o.append("\\u").append(Integer.toHexString(0x10000 | ch), 1, 5); else o.append(ch); }
		return o.append('"').toString();
	}
	static String cut(String s, int n) { return s.length() <= n ? s : s.substring(0, n); }

	public static void main(String[] a) throws Exception {
		SuiteInt.register(); SuiteCurve.register(); SuiteEcdsa.register(); SuiteHash.register(); SuiteText.register(); SuiteValue.register(); SuiteVectors.register(); SuiteCt.register(); SuiteThreads.register(); SuiteHistory.register();
		Ctx c = new Ctx();
		if (a.length == 0) { System.out.println(SUITES.keySet()); return; }
		c.suite = a[0];
		long from = 0, to = 100, only = -1; int shard = 0, shards = 1, watch = 6;
		String out = null, jpath = null;
		for (int i = 1; i < a.length; i++) {
			switch (a[i]) {
				case "--seed": c.seed = Long.parseLong(a[++i]); break;
				case "--from": from = Long.parseLong(a[++i]); break;
				case "--to": to = Long.parseLong(a[++i]); break;
				case "--shard": { String[] p = a[++i].split("/"); shard = Integer.parseInt(p[0]); shards = Integer.parseInt(p[1]); break; }
				case "--out": out = a[++i]; break;
				case "--journal": jpath = a[++i]; break;
				case "--only": only = Long.parseLong(a[++i]); break;
				case "--dict": Gen.loadDictionary(a[++i]); break;
				case "--thorough": c.thorough = true; break;
				case "--watch": watch = Integer.parseInt(a[++i]); break;
				case "--vectors": SuiteVectors.path = a[++i]; break;
				default: System.err.println("bad arg " + a[i]); System.exit(64);
			}
		}
		Case su = SUITES.get(c.suite);
		if (su == null) { System.err.println("no such suite " + c.suite); System.exit(64); }
		if (jpath != null) { c.journal = new Journal(jpath); watchdog(c.journal, watch); }
		try { Oracle.selfTest(); }
		catch (Throwable t) { t.printStackTrace(); System.exit(70); }   // the oracle itself is broken
		long sampleAt = 0, step = Math.max(1, (to - from) / 3);
		for (long i = from; i < to; i++) {
			if (only >= 0 ? i != only : i % shards != shard) continue;
			c.idx = i; c.rng = new Rng(c.seed, c.suite, i); c.describe = "";
			if (c.journal != null) c.journal.start(i);
			c.cases++;
			try { su.run(c); }
			catch (Violation v) { c.violations.add(new Object[]{i, v.getMessage() + " | case: " + cut(c.describe, 4000)}); }
			catch (Throwable t) { c.violations.add(new Object[]{i, "unexpected " + t + where(t) + " | case: " + cut(c.describe, 4000)}); }
			if (c.violations.size() >= 5) break;
			if (i - from >= sampleAt && c.samples.size() < 3 && !c.describe.isEmpty()) { c.samples.add(cut(c.describe, 600)); sampleAt = i - from + step; }
		}
		StringBuilder o = new StringBuilder("{\"suite\":" + js(c.suite) + ",\"cases\":" + c.cases + ",\"evaluations\":" + c.evaluations + ",\"distinct\":" + c.distinct.size() + ",\"digest\":\"" + Long.toHexString(c.digest) + "\",\"counts\":{");
		boolean f = true;
		for (Map.Entry<String,Long> e : c.counts.entrySet()) { o.append(f ? "" : ",").append(js(e.getKey())).append(':').append(e.getValue()); f = false; }
		o.append("},\"samples\":["); f = true;
		for (String s : c.samples) { o.append(f ? "" : ",").append(js(s)); f = false; }
		o.append("],\"violations\":["); f = true;
		for (Object[] v : c.violations) { o.append(f ? "" : ",").append("{\"idx\":").append(v[0]).append(",\"msg\":").append(js(cut((String)v[1], 6000))).append('}'); f = false; }
		o.append("]}\n");
		if (out == null) System.out.print(o);
		else Files.write(Paths.get(out), o.toString().getBytes(StandardCharsets.US_ASCII));
		System.out.flush();
		Runtime.getRuntime().halt(c.violations.isEmpty() ? 0 : 3);
	}

	/** One case that makes no progress for watch * 20 CPU-seconds is a hang. */
	static void watchdog(final Journal j, final int watch) {
		final long mainId = Thread.currentThread().getId();
		Thread t = new Thread(() -> {
			ThreadMXBean mx = ManagementFactory.getThreadMXBean();
			long last = -1, base = 0;
			for (;;) {
				try { Thread.sleep(500); } catch (InterruptedException e) { return; }
				long cpu = mx.getThreadCpuTime(mainId), s = j.seq;
				if (s != last) { last = s; base = cpu; }
				else if (s > 0 && cpu - base > watch * 20L * 1000000000L) {
					System.err.println("HANG: a case exceeded its CPU budget");
					Runtime.getRuntime().halt(66);
				}
			}
		});
		t.setDaemon(true);
		t.start();
	}
}
