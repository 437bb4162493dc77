package mon;

import java.util.*;

/** Trace equality: the same operation on many secrets must produce the same sequence of blocks, indices and calls. */
final class SuiteCt {
	static void register() { Mon.SUITES.put("jct", SuiteCt::run); }
	static CtDriver d; static final boolean[] warm = new boolean[64];
	static final String[] KIND = {"block ", "array index ", "array length ", "call ", "value passed to variable-time code ", "division operands "};
	static String explain(long e) { int k = (int)(e >>> 60); long v = e << 4 >> 4; return KIND[k] + (k == Hooks.BLOCK || k == Hooks.CALL ? Instrument.places.get((int)v) : Long.toString(v)); }
	static long[] trace(int op, Rng pub, Rng sec, int which) {
		d.setup(op, pub, sec, which); Hooks.arm(true); try { d.run(); } finally { Hooks.disarm(); }
		return Arrays.copyOf(Hooks.log, Hooks.count);
	}
	static int which(Ctx c, int s) { return new Rng(c.seed, "ctwhich" + s, c.idx).below(12); }
	static void run(Ctx c) throws Exception {
		if (d == null) d = (CtDriver)new Instrument(Instrument.TRACE, "mon.CtOps").loadClass("mon.CtOps").getConstructor().newInstance();
		String[] names = d.names();
		int op = (int)(c.idx % names.length); long group = c.idx / names.length;
		int secrets = d.weight(op) >= 6 ? 5 : d.weight(op) >= 2 ? 16 : 40;
		if (!warm[op]) {   // class initialisation and one-time set-up are not part of the guarantee
			for (int i = 0; i < 3; i++) { d.setup(op, new Rng(9, "warm", i), new Rng(9, "warmsec", i), 9); if (d.run()) break; }
			warm[op] = true;
		}
		boolean have = false; int len = 0, refS = 0; long h = 0; long[] before = Hooks.kinds.clone();
		for (int s = 0; s < secrets; s++) {
			Rng pub = new Rng(c.seed, "ctpub", c.idx), sec = new Rng(c.seed, "ctsec" + s, c.idx);
			int which = group == 0 ? s : which(c, s);
			String desc = d.setup(op, pub, sec, which);
			c.note(desc);
			boolean ok;
			Hooks.arm(false);
			try { ok = d.run(); } finally { Hooks.disarm(); }
			if (!ok) { c.hit("unsuccessful-execution-skipped"); continue; }
			c.evaluations++; c.hit("exec." + names[op]);
			int cnt = Hooks.count; long hh = Hooks.hash;
			if (!have) {
				have = true; len = cnt; h = hh; refS = s;
				if (cnt == 0) throw new IllegalStateException("no events for " + names[op]);
				c.counts.put("trace-length." + names[op], (long)len);
				continue;
			}
			c.nontrivial(desc);
			if (cnt != len || hh != h) {
				long[] a = trace(op, new Rng(c.seed, "ctpub", c.idx), new Rng(c.seed, "ctsec" + refS, c.idx), group == 0 ? refS : which(c, refS));
				long[] b = trace(op, new Rng(c.seed, "ctpub", c.idx), new Rng(c.seed, "ctsec" + s, c.idx), which);
				int k = 0; while (k < a.length && k < b.length && a[k] == b[k]) k++;
				c.check(false, "%s: execution trace depends on the secret: event %d was %s, now %s (lengths %d, %d)", names[op], k, k < a.length ? explain(a[k]) : "end of trace", k < b.length ? explain(b[k]) : "end of trace", len, cnt);
			}
		}
		for (int k = 0; k < 6; k++) c.counts.merge("events." + KIND[k].trim().replace(' ', '-'), Hooks.kinds[k] - before[k], Long::sum);
		c.counts.put("instrumented.blocks", (long)Instrument.blocks); c.counts.put("instrumented.array-accesses", (long)Instrument.accesses); c.counts.put("instrumented.outside-calls", (long)Instrument.calls);
	}
}
