package mon;

/** Implemented by ThreadOps, which is loaded together with an instrumented copy of the library. */
public interface ThreadDriver {
	int ops();
	String name(int op);
	/** Objects of the library that all threads of a round read. */
	Object share(Object[] in);
	/** Executes one operation on shared inputs and the thread's own buffers, and describes its result. */
	String run(int op, Object[] in, Object shared, Rng own);
}
