package mon;

/** Implemented by HistoryOps, which is loaded together with a copy of the library of its own. */
public interface HistoryDriver {
	/** Executes one operation, with its arguments in arrays and strings that earlier calls used too (reuse) or in new ones, and describes the result. */
	String run(int op, byte[][] args, boolean reuse);
}
