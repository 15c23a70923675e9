import tlc2.value.impl.*;
/** Java overrides of Md5.tla (compared with the definitions by Md5Check.tla). */
public class Md5 {
  private static final int[] T = new int[64];
  private static final int[][] R = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
  static { for (int j = 0; j < 64; j++) T[j] = (int) (long) (Math.abs(Math.sin(j + 1)) * 4294967296.0); }
  static void transform(int[] st, int[] x) {
    int a = st[0], b = st[1], c = st[2], d = st[3];
    for (int j = 0; j < 64; j++) {
      int f, k;
      if (j < 16) { f = (b & c) | (~b & d); k = j; }
      else if (j < 32) { f = (b & d) | (c & ~d); k = 5 * j + 1; }
      else if (j < 48) { f = b ^ c ^ d; k = 3 * j + 5; }
      else { f = c ^ (b | ~d); k = 7 * j; }
      int t = b + Integer.rotateLeft(a + f + x[k & 15] + T[j], R[j >>> 4][j & 3]);
      a = d; d = c; c = b; b = t;
    }
    st[0] += a; st[1] += b; st[2] += c; st[3] += d;
  }
  public static Value Transform(Value st, Value x) { int[] s = V.ints(st); transform(s, V.ints(x)); return V.tup(s); }
  private interface Src { int next(); }
  private static Value add(Value c, Src src, long n) {
    int[] st = V.ints(V.field(c, "st")), x = new int[16];
    byte[] old = V.bytes(V.field(c, "buf")), b = new byte[64];
    int k = 0;
    for (byte y : old) b[k++] = y;
    for (long j = 0; j < n; j++) {
      b[k++] = (byte) src.next();
      if (k == 64) { for (int i = 0; i < 16; i++) x[i] = V.le(b, 4 * i); transform(st, x); k = 0; }
    }
    long lo = V.i(V.field(c, "lo")) & 0xffffffffL, hi = V.i(V.field(c, "hi")) & 0xffffffffL, s = (hi << 32 | lo) + (n << 3);
    return V.rec("st", V.tup(st), "lo", V.g((int) s), "hi", V.g((int) (s >>> 32)), "buf", V.tup(b, k));
  }
  public static Value Md5Add(Value c, Value m) { byte[] b = V.bytes(m); int[] p = {0}; return add(c, () -> b[p[0]++], b.length); }
  public static Value Md5AddLong(Value c, Value seed, Value z) { V.Pat p = new V.Pat(V.i(seed)); return add(c, p::next, V.size(z)); }
}
