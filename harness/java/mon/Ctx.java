package mon;

import java.util.*;

/** What a suite sees of its current case, and where the monitor counts what it observed. */
public final class Ctx {
	public long seed, idx;
	public Rng rng;
	public String suite, describe = "";
	public boolean thorough;
	public long evaluations, cases;
	public final TreeMap<String,Long> counts = new TreeMap<>();
	public final HashSet<Long> distinct = new HashSet<>();
	public final ArrayList<String> samples = new ArrayList<>();
	public final ArrayList<Object[]> violations = new ArrayList<>();
	Mon.Journal journal;

	public void note(String d) { describe = d; if (journal != null) journal.detail(d); }
	public void hit(String k) { counts.merge(k, 1L, Long::sum); }
	long digest = 1469598103934665603L;
	/** Feeds the digest that is compared between configurations. */
	public void observe(String s) { for (int i = 0; i < s.length(); i++) digest = (digest ^ s.charAt(i)) * 1099511628211L; digest = (digest ^ 0x1FFFF) * 1099511628211L; }
	public void nontrivial() { nontrivial(describe); }
	public void nontrivial(String s) {
		long h = 0xCBF29CE484222325L;
		for (int i = 0; i < s.length(); i++) h = (h ^ s.charAt(i)) * 0x100000001B3L;
		if (distinct.size() < 1500000) distinct.add(Rng.mix(h));
	}
	public void check(boolean ok, String fmt, Object... args) {
		evaluations++;
		if (!ok) throw new Violation(args.length == 0 ? fmt : String.format(fmt, args));
	}
	/** The call must throw exactly an exception of the given kind. */
	public void rejects(Class<? extends Throwable> kind, String what, Runnable r) {
		evaluations++;
		try { r.run(); }
		catch (Violation v) { throw v; }
		catch (Throwable t) {
			if (kind.isInstance(t)) return;
			throw new Violation(what + ": expected " + kind.getSimpleName() + " but got " + t + Mon.where(t));
		}
		throw new Violation(what + ": expected " + kind.getSimpleName() + " but the call returned");
	}
}
