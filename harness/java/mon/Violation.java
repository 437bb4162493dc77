package mon;

public final class Violation extends RuntimeException {
	public Violation(String m) { super(m, null, false, false); }
}
