package mon;

import java.util.concurrent.atomic.*;

/** Many threads at once, with held-back threads inside the library's code; each result must be the serial one. */
final class SuiteThreads {
	static void register() { Mon.SUITES.put("jthreads", SuiteThreads::run); }
	static ThreadDriver serial, warm;
	static ThreadDriver fresh() throws Exception { return (ThreadDriver)new Instrument(Instrument.PAUSE, "mon.ThreadOps").loadClass("mon.ThreadOps").getConstructor().newInstance(); }
	static void run(Ctx c) throws Exception {
		Rng r = c.rng;
		int nt = 2 + r.below(9), perThread = c.thorough ? 10 : 6, rate = 1 << 11 + r.below(7);
		Object[] in = ThreadOps.inputs(r, (int)c.idx);
		boolean cold = c.idx % 3 == 0;
		if (serial == null) { serial = fresh(); warm = fresh(); }
		ThreadDriver alone = serial, together = cold ? fresh() : warm;   // unrelated copies of the library; a cold one is not even initialised
		int ops = alone.ops();
		boolean same = r.chance(1, 2), shareHash = r.chance(1, 2);
		int first = (int)(c.idx % ops);
		int[][] plan = new int[nt][perThread];
		for (int t = 0; t < nt; t++) for (int i = 0; i < perThread; i++) plan[t][i] = same && i < 3 || i == 0 && r.chance(1, 2) ? first : r.below(ops);
		c.hit(cold ? "rounds.cold" : "rounds.warm");
		c.note("threads=" + nt + " first=" + alone.name(first) + " same=" + same + " sharedHash=" + shareHash + " rate=" + rate); c.nontrivial();
		Object[] inCopy = deep(in);
		final String[][] got = new String[nt][perThread]; final Throwable[] err = new Throwable[nt];
		final Object shared = shareHash ? together.share(in) : null;
		final AtomicInteger waiting = new AtomicInteger(); final AtomicLong mixed = new AtomicLong(), running = new AtomicLong();
		final AtomicInteger ticket = new AtomicInteger(); final byte[] order = new byte[2 * nt * perThread]; final int[][] from = new int[nt][perThread], to = new int[nt][perThread];
		Hooks.Worker[] th = new Hooks.Worker[nt];
		for (int t = 0; t < nt; t++) {
			final int tt = t;
			th[t] = new Hooks.Worker(() -> {
				try {
					waiting.incrementAndGet(); while (waiting.get() < nt) Thread.onSpinWait();
					for (int i = 0; i < perThread; i++) {
						if (running.incrementAndGet() > 1) mixed.incrementAndGet();
						from[tt][i] = ticket.getAndIncrement();
						try { got[tt][i] = together.run(plan[tt][i], in, shared, new Rng(c.seed, "own" + tt, c.idx * 100 + i)); } finally { to[tt][i] = ticket.getAndIncrement(); running.decrementAndGet(); }
					}
				} catch (Throwable e) { err[tt] = e; }
			}, r.next());
			th[t].rate = rate; th[t].setDaemon(true);
		}
		for (Thread t : th) t.start();
		for (Thread t : th) { t.join(120000); c.check(!t.isAlive(), "a thread did not finish within 120 s"); }
		Object sharedA = shareHash ? alone.share(in) : null;
		String[] want = new String[ops];
		for (int t = 0; t < nt; t++) {
			c.check(err[t] == null, "thread %d of %d: %s %s", t, nt, String.valueOf(err[t]), err[t] == null ? "" : Mon.where(err[t]));
			for (int i = 0; i < perThread; i++) {
				int op = plan[t][i];
				if (want[op] == null) want[op] = alone.run(op, in, sharedA, new Rng(c.seed, "alone", op));
				c.check(want[op].equals(got[t][i]), "thread %d of %d, operation %s: %s, alone it returns %s", t, nt, alone.name(op), Mon.cut(got[t][i], 300), Mon.cut(want[op], 300));
				c.hit("op." + alone.name(op));
			}
			c.counts.merge("perturbations", th[t].perturbed, Long::sum); c.counts.merge("instrumentation-points-passed", th[t].seen, Long::sum);
		}
		long overlaps = 0, switches = 0;   // order of the starts and ends of the operations over all threads
		for (int t = 0; t < nt; t++) for (int i = 0; i < perThread; i++) { order[from[t][i]] = (byte)t; order[to[t][i]] = (byte)(64 | t); for (int u = 0; u < t; u++) for (int k = 0; k < perThread; k++) if (from[t][i] < to[u][k] && from[u][k] < to[t][i]) overlaps++; }
		for (int i = 1; i < order.length; i++) if ((order[i] & 63) != (order[i - 1] & 63)) switches++;
		c.counts.merge("overlapping-operation-pairs", overlaps, Long::sum); c.counts.merge("switches-between-threads", switches, Long::sum);
		c.hit("interleaving." + Integer.toHexString(java.util.Arrays.hashCode(order)));
		c.check(java.util.Arrays.deepEquals(in, inCopy), "a shared argument was modified");
		c.counts.merge("threads", (long)nt, Long::sum); c.counts.merge("operations-started-while-others-ran", mixed.get(), Long::sum); c.hit("first-use." + alone.name(first));
		c.counts.put("instrumented.blocks", (long)Instrument.blocks); c.counts.put("instrumented.array-accesses", (long)Instrument.accesses); c.counts.put("instrumented.field-accesses", (long)Instrument.fields);
	}
	static Object[] deep(Object[] a) {
		Object[] b = a.clone();
		for (int i = 0; i < b.length; i++) { if (b[i] instanceof int[]) b[i] = ((int[])b[i]).clone(); else if (b[i] instanceof byte[]) b[i] = ((byte[])b[i]).clone(); }
		return b;
	}
}
