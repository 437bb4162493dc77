package mon;

import static mon.Gen.*;
import java.math.BigInteger;
import java.util.*;

/** A word array with operands and one scratch area at random places, and the record of what a call may change. */
public final class Lay {
	public final int[] val; int[] before;
	public final int[] off;    // operand offsets
	public final int temp, tempLen;
	public Lay(Rng r, int[] opWords, int tempWords) {
		int pads = r.below(3), n = opWords.length + 1 + pads;
		Integer[] order = new Integer[n];
		for (int i = 0; i < n; i++) order[i] = i;
		for (int i = n - 1; i > 0; i--) { int j = r.below(i + 1); Integer t = order[i]; order[i] = order[j]; order[j] = t; }
		off = new int[opWords.length];
		int o = 0, t = 0;
		for (int k : order) {
			if (k < opWords.length) { off[k] = o; o += opWords[k]; }
			else if (k == opWords.length) { t = o; o += tempWords; }
			else o += 8;
		}
		temp = t; tempLen = tempWords;
		val = new int[o];
		int style = r.below(3);
		for (int i = 0; i < o; i++) val[i] = style == 0 ? 0 : style == 1 ? -1 : r.u32();   // leftovers of earlier use
	}
	public void arm() { before = val.clone(); }
	/** Every word outside the scratch area and outside the listed destinations must be as it was. */
	public void intact(Ctx c, String op, int... dstPairs) {
		c.evaluations++;
		next: for (int i = 0; i < val.length; i++) {
			if (val[i] == before[i] || i >= temp && i < temp + tempLen) continue;
			for (int k = 0; k < dstPairs.length; k += 2) if (i >= dstPairs[k] && i < dstPairs[k] + dstPairs[k + 1]) continue next;
			throw new Violation(op + " changed word " + i + " of the array, outside its destination and scratch words (offsets " + Arrays.toString(off) + ", scratch " + temp + "+" + tempLen + ")");
		}
	}
	public BigInteger get(int o) { return Gen.get(val, o); }
	public void put(int o, BigInteger v) { Gen.put(val, o, v); }
}
