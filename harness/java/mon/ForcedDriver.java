package mon;

/** Implemented by ForcedOps, which is loaded together with a copy of the library whose calls of HMAC and of point multiplication can be answered. */
public interface ForcedDriver {
	/** Signs with the derived nonce while HMAC-SHA-256 returns the given bytes. Yields the verdict, or null if the HMAC was not called exactly once. */
	Boolean sign(int[] d, byte[] z, byte[] answer, int[] r, int[] s);
	/** Signs while the multiple of the base point is the given one. Yields the verdict, or null if nonce * base was not computed by exactly one call. */
	Boolean signPoint(int[] d, byte[] z, int[] k, int[] base, int[] point, int[] r, int[] s);
}
