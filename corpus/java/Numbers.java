package corpus;
/** Every kind of arithmetic, conversion, comparison, array access and switch. */
class Numbers {
    static int si; static long sl; static float sf; static double sd; byte fb; char fc; short fs; boolean fz;
    static final int C0 = Integer.MIN_VALUE; static final String S = "const"; static final char CH = '\uffff'; static final boolean T = true; static final byte B = -128; static final short SH = 32767; static final float NF = Float.NEGATIVE_INFINITY; static final double MIN = Double.MIN_VALUE;
    int ints(int a, int b) { int c = a + b - a * b / (b | 1) % 7; c <<= a; c >>= b; c >>>= 3; c &= ~a; c |= -b; c ^= 5; c++; c += 1000; c -= 40000; return c == a ? -1 : c < b ? 127 : c > 3 ? -32768 : c >= 2 ? 65536 : c != 0 ? 5 : c <= 1 ? 0 : 4; }
    long longs(long a, long b) { long c = a + b - a * b / (b | 1) % 7L; c <<= a; c >>= b; c >>>= 3; c &= ~a; c |= -b; c ^= 0L; return c > 1L ? c : (long) (int) c + (long) (float) a + (long) (double) b; }
    float floats(float a, float b) { float c = a + b - a * b / b % 2f; return c < 0f ? -c : c > 1f ? (float) (int) c : (float) (long) c + (float) (double) a; }
    double doubles(double a, double b) { double c = a + b - a * b / b % 1.0; return c < 0.0 ? -c : c >= b ? (double) (int) c : (double) (long) c + (double) (float) a; }
    void arrays(int[] i, long[] l, float[] f, double[] d, byte[] b, char[] c, short[] s, boolean[] z, Object[] o, int[][] m) {
        i[0] = i[1]; l[0] = l[1]++; f[0] = f[1]--; d[0] += d[1]; b[0] = (byte) i[0]; c[0] = (char) i[0]; s[0] = (short) i[0]; z[0] = !z[1]; o[0] = o[1] == null ? this : o[2] != o[1] ? "x" : new long[2]; m[0][1] = m[1].length;
        Object[] x = { new boolean[1], new char[2], new float[3], new double[4], new byte[5], new short[6], new int[7], new String[8], new int[1][2], Numbers.class, int.class, String[][].class };
        si = x.length; sl = si; sf = sl; sd = sf; fb = 1; fc = 2; fs = 3; fz = true;
    }
    int dense(int x) { switch (x) { case -1: return 9; case 0: x++; case 1: return 10; case 2: case 3: return 11; case 5: return 12; default: return 0; } }
    int sparse(int x) { switch (x) { case Integer.MIN_VALUE: return 1; case -100000: return 2; case 7: return 3; case Integer.MAX_VALUE: return 4; } return 5; }
    int word(String s) { switch (s) { case "one": return 1; case "two": return 2; case "": return 3; default: return s.hashCode(); } }
    int en(Thread.State s) { switch (s) { case NEW: return 1; case BLOCKED: return 2; default: return 3; } }
    void loops() { outer: for (int i = 0; i < 300; i += 2) { do { if (i % 3 == 0) continue outer; if (i > 200) break outer; } while (i-- > 1000); } while (si < 0) si++; for (String q : new String[] {"a"}) si += q.length(); for (Object q : java.util.Arrays.asList(1, 2)) si ^= q.hashCode(); }
    static synchronized strictfp double wide(long a0, double a1, long a2, double a3, int... rest) { long t = a0; try { t += (long) a1; try { t /= a2; } finally { t++; } } catch (ArithmeticException e) { t = -1; } catch (RuntimeException e) { throw e; } finally { si = (int) t; } return t + a3 + rest[0]; }
    Object inner(final int p, String q) { class Local { int g() { return p + q.length(); } class Deep {} } return new Object() { int z = new Local().g(); @Override public String toString() { return "anon" + z + p + q + 'c' + 1.0f + 2L; } }; }
    class Member { private int hidden; class Leaf { int h = hidden++; } } static class Nest { private static int priv() { return 3; } } int priv() { return Nest.priv() + new Member().hidden; }
    interface Priv { static int y() { return 2; } default int z() { return y(); } }
}
