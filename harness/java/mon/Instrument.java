package mon;

import java.io.*;
import java.util.*;
import jdk.internal.org.objectweb.asm.*;

/** Loads the library (and the named drivers) afresh, with events inserted into the library's bytecode. */
public final class Instrument extends ClassLoader implements Opcodes {
	static final String LIB = "io/nayuki/bitcoin/crypto/", H = "mon/Hooks";
	public static final int TRACE = 1, PAUSE = 2, FORCE = 4;
	final int mode; final Set<String> drivers;
	public static final List<String> places = new ArrayList<>();     // block and call site descriptions
	static final Map<String,byte[]> cache = new HashMap<>();
	public static int blocks, accesses, calls, fields;
	public Instrument(int mode, String... drivers) { super(Instrument.class.getClassLoader()); this.mode = mode; this.drivers = new HashSet<>(Arrays.asList(drivers)); }

	@Override protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
		boolean lib = name.startsWith("io.nayuki.");
		int d = name.indexOf('$');
		if (!lib && !drivers.contains(d < 0 ? name : name.substring(0, d))) return super.loadClass(name, resolve);
		synchronized (getClassLoadingLock(name)) {
			Class<?> c = findLoadedClass(name);
			if (c == null) {
				byte[] b;
				synchronized (cache) {
					String key = mode + name;
					b = cache.get(key);
					if (b == null) {
						try (InputStream in = getParent().getResourceAsStream(name.replace('.', '/') + ".class")) { if (in == null) throw new ClassNotFoundException(name); b = in.readAllBytes(); }
						catch (IOException e) { throw new ClassNotFoundException(name, e); }
						if (lib && mode != 0) b = rewrite(b);
						cache.put(key, b);
					}
				}
				c = defineClass(name, b, 0, b.length);
			}
			if (resolve) resolveClass(c);
			return c;
		}
	}
	static { registerAsParallelCapable(); }
	static synchronized int place(String s) { places.add(s); return places.size() - 1; }

	/** Library calls whose running time does not depend on their arguments. */
	static final Set<String> CT = new HashSet<>(Arrays.asList("rotateLeft", "rotateRight", "reverse", "reverseBytes", "bitCount", "signum", "toUnsignedInt", "toUnsignedLong", "multiplyHigh", "multiplyFull", "sum", "valueOf", "intValue", "longValue"));
	/** 0: only that the call happened; 1: every primitive argument; 2: every argument by content; 3: the int arguments except the last; 4: int arguments */
	static int policy(String owner, String name, String desc) {
		if (owner.equals("java/lang/System") && name.equals("arraycopy")) return 4;
		if (owner.equals("java/util/Arrays")) {
			if (name.equals("fill")) return desc.startsWith("([III") || desc.indexOf("II") > 0 ? 3 : 0;
			if (name.startsWith("copyOf")) return 4;
			return 2;
		}
		if (owner.equals("java/lang/Integer") || owner.equals("java/lang/Long") || owner.equals("java/lang/Math") || owner.equals("java/lang/StrictMath") || owner.equals("java/lang/Byte") || owner.equals("java/lang/Short") || owner.equals("java/lang/Character") || owner.equals("java/lang/Boolean")) {
			if (owner.equals("java/lang/Character") && name.equals("valueOf")) return 1;
			return CT.contains(name) ? 0 : 1;
		}
		if (owner.equals("java/math/BigInteger") || owner.equals("java/lang/String") || owner.equals("java/lang/StringBuilder")) return 2;
		if (owner.equals("java/util/Objects")) return name.startsWith("check") ? 1 : name.equals("equals") || name.equals("hash") ? 2 : 0;
		if (owner.startsWith("java/nio/")) return name.startsWith("put") ? 3 : 4;
		return 0;
	}

	byte[] rewrite(byte[] in) {
		ClassReader cr = new ClassReader(in);
		ClassWriter cw = new ClassWriter(cr, ClassWriter.COMPUTE_MAXS);
		String[] self = {cr.getClassName()};
		List<Object[]> wrappers = new ArrayList<>();
		cr.accept(new ClassVisitor(ASM8, cw) {
			@Override public MethodVisitor visitMethod(int acc, String mname, String mdesc, String sig, String[] ex) {
				MethodVisitor mv = super.visitMethod(acc, mname, mdesc, sig, ex);
				if (mv == null || mode == TRACE && mname.equals("<clinit>")) return mv;
				if (mode == FORCE) return new MethodVisitor(ASM8, mv) {
					@Override public void visitMethodInsn(int op, String o, String n, String d, boolean itf) {
						boolean hmac = op == INVOKESTATIC && o.equals(LIB + "Sha256") && n.equals("getHmac") && d.equals("([B[B)L" + LIB + "Sha256Hash;") && !self[0].equals(o);
						boolean mul = op == INVOKESTATIC && o.equals(LIB + "CurvePointMath") && n.equals("multiply") && d.equals("([IIII)V") && !self[0].equals(o);
						super.visitMethodInsn(op, hmac || mul ? "mon/ForcedOps" : o, hmac ? "hmac" : n, d, itf);
					}
				};
				String where = self[0].substring(self[0].lastIndexOf('/') + 1) + "." + mname;
				return new MethodVisitor(ASM8, mv) {
					boolean pending = false; int seq = 0;
					@Override public void visitCode() { super.visitCode(); pending = true; }
					void flush() {
						if (!pending) return;
						pending = false; blocks++;
						if (mode == TRACE) { push(place(where + " block " + seq++)); super.visitMethodInsn(INVOKESTATIC, H, "block", "(I)V", false); }
						else pause(1);
					}
					void pause(int heat) { push(heat); super.visitMethodInsn(INVOKESTATIC, H, "pause", "(I)V", false); }
					void push(int v) { if (v >= -1 && v <= 5) super.visitInsn(ICONST_0 + v); else super.visitLdcInsn(v); }
					@Override public void visitLabel(Label l) { super.visitLabel(l); pending = true; }
					@Override public void visitJumpInsn(int op, Label l) { flush(); super.visitJumpInsn(op, l); pending = op != GOTO; }
					@Override public void visitIntInsn(int op, int v) { flush(); if (op == NEWARRAY && mode == TRACE) { super.visitInsn(DUP); hook("length", "(I)V"); } super.visitIntInsn(op, v); }
					@Override public void visitVarInsn(int op, int v) { flush(); super.visitVarInsn(op, v); }
					@Override public void visitTypeInsn(int op, String t) {
						if (op == NEW) { super.visitTypeInsn(op, t); flush(); return; }
						flush();
						if (op == ANEWARRAY && mode == TRACE) { super.visitInsn(DUP); hook("length", "(I)V"); }
						super.visitTypeInsn(op, t);
					}
					@Override public void visitFieldInsn(int op, String o, String n, String d) {
						flush();
						boolean hot = mode == PAUSE && o.startsWith(LIB) && !n.startsWith("$");
						if (hot && (op == PUTSTATIC || op == PUTFIELD) && !mname.equals("<init>")) { fields++; pause(500); }
						super.visitFieldInsn(op, o, n, d);
						if (hot && !mname.equals("<init>") && (op == PUTSTATIC || op == GETSTATIC && !d.startsWith("["))) { fields++; pause(op == PUTSTATIC ? 500 : 50); }
					}
					@Override public void visitIincInsn(int v, int i) { flush(); super.visitIincInsn(v, i); }
					@Override public void visitLdcInsn(Object v) { flush(); super.visitLdcInsn(v); }
					@Override public void visitTableSwitchInsn(int a, int b, Label d, Label... l) { flush(); super.visitTableSwitchInsn(a, b, d, l); }
					@Override public void visitLookupSwitchInsn(Label d, int[] k, Label[] l) { flush(); super.visitLookupSwitchInsn(d, k, l); }
					@Override public void visitMultiANewArrayInsn(String d, int n) { flush(); super.visitMultiANewArrayInsn(d, n); }
					@Override public void visitInvokeDynamicInsn(String n, String d, Handle b, Object... a) { flush(); super.visitInvokeDynamicInsn(n, d, b, a); }
					void hook(String n, String d) { super.visitMethodInsn(INVOKESTATIC, H, n, d, false); }
					@Override public void visitInsn(int op) {
						flush();
						if (op >= IALOAD && op <= SALOAD || op >= IASTORE && op <= SASTORE) accesses++;
						if (mode == PAUSE) {
							super.visitInsn(op);
							if (op >= IASTORE && op <= SASTORE) pause(2);
							return;
						}
						switch (op) {
							case IALOAD: case LALOAD: case FALOAD: case DALOAD: case AALOAD: case BALOAD: case CALOAD: case SALOAD:
								super.visitInsn(DUP2); hook("index", "(Ljava/lang/Object;I)V"); super.visitInsn(op); break;
							case IASTORE: hook("iastore", "([III)V"); break;
							case LASTORE: hook("lastore", "([JIJ)V"); break;
							case BASTORE: hook("bastore", "(Ljava/lang/Object;II)V"); break;
							case CASTORE: hook("castore", "([CII)V"); break;
							case SASTORE: hook("sastore", "([SII)V"); break;
							case AASTORE: hook("aastore", "([Ljava/lang/Object;ILjava/lang/Object;)V"); break;
							case IDIV: case IREM: super.visitInsn(DUP2); hook("division", "(II)V"); super.visitInsn(op); break;
							case LDIV: case LREM: {   // operands to a helper, so that no local slot is needed
								String w = "$div" + wrappers.size();
								wrappers.add(new Object[]{w, "(JJ)J", op, null, null, 0, 0});
								super.visitMethodInsn(INVOKESTATIC, self[0], w, "(JJ)J", false); break;
							}
							default: super.visitInsn(op);
						}
					}
					@Override public void visitMethodInsn(int op, String o, String n, String d, boolean itf) {
						flush();
						boolean outside = !o.startsWith(LIB);
						if (outside) calls++;
						if (mode == PAUSE || !outside) { super.visitMethodInsn(op, o, n, d, itf); return; }
						int id = place(where + " call " + o + "." + n), pol = policy(o, n, d);
						if (op == INVOKESPECIAL || pol == 0 || o.startsWith("[")) { push(id); hook("call", "(I)V"); super.visitMethodInsn(op, o, n, d, itf); return; }
						String wd = op == INVOKESTATIC ? d : "(L" + o + ";" + d.substring(1), w = "$call" + wrappers.size();
						wrappers.add(new Object[]{w, wd, op, o, n, pol, id, d, itf});
						super.visitMethodInsn(INVOKESTATIC, self[0], w, wd, false);
					}
				};
			}
			@Override public void visitEnd() {
				for (Object[] w : wrappers) {
					MethodVisitor m = cw.visitMethod(ACC_PRIVATE | ACC_STATIC | ACC_SYNTHETIC, (String)w[0], (String)w[1], null, null);
					m.visitCode();
					int op = (Integer)w[2];
					if (w[3] == null) {
						m.visitVarInsn(LLOAD, 0); m.visitVarInsn(LLOAD, 2); m.visitMethodInsn(INVOKESTATIC, H, "division", "(JJ)V", false);
						m.visitVarInsn(LLOAD, 0); m.visitVarInsn(LLOAD, 2); m.visitInsn(op); m.visitInsn(LRETURN);
					} else {
						int pol = (Integer)w[5];
						m.visitLdcInsn(w[6]); m.visitMethodInsn(INVOKESTATIC, H, "call", "(I)V", false);
						Type[] at = Type.getArgumentTypes((String)w[1]);
						int slot = 0;
						for (int i = 0; i < at.length; i++) {
							int s = at[i].getSort(); boolean prim = s < Type.ARRAY, integer = s == Type.INT || s == Type.SHORT || s == Type.BYTE || s == Type.CHAR;
							boolean rec = pol == 2 || pol == 1 && prim || pol == 4 && integer || pol == 3 && integer && i < at.length - 1;
							if (rec) {
								m.visitVarInsn(at[i].getOpcode(ILOAD), slot);
								String vd = s == Type.LONG ? "J" : s == Type.FLOAT ? "F" : s == Type.DOUBLE ? "D" : s == Type.BOOLEAN ? "Z" : prim ? "I" : "Ljava/lang/Object;";
								m.visitMethodInsn(INVOKESTATIC, H, "value", "(" + vd + ")V", false);
							}
							slot += at[i].getSize();
						}
						slot = 0;
						for (Type t : at) { m.visitVarInsn(t.getOpcode(ILOAD), slot); slot += t.getSize(); }
						m.visitMethodInsn(op, (String)w[3], (String)w[4], (String)w[7], (Boolean)w[8]);
						m.visitInsn(Type.getReturnType((String)w[1]).getOpcode(IRETURN));
					}
					m.visitMaxs(0, 0); m.visitEnd();
				}
				super.visitEnd();
			}
		}, ClassReader.SKIP_DEBUG);
		return cw.toByteArray();
	}
}
