package mon;

/** Implemented by CtOps, which is loaded together with the instrumented library. */
public interface CtDriver {
	String[] names();
	int weight(int op);
	/** Prepares the operands of one execution: public parameters from pub, secrets from sec. Returns their description. */
	String setup(int op, Rng pub, Rng sec, int which);
	/** Executes; false if the execution is outside the guarantee. */
	boolean run();
}
