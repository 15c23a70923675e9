import tlc2.value.impl.*;
import util.UniqueString;
/** Conversions shared by the override classes (no TLA+ module of this name). */
final class V {
  static int i(Value v) { return ((IntValue) v).val; }
  static IntValue g(int x) { return IntValue.gen(x); }
  static Value[] t(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    return ((TupleValue) v.toTuple()).elems;
  }
  static int[] ints(Value v) {
    Value[] e = t(v); int[] r = new int[e.length];
    for (int j = 0; j < r.length; j++) r[j] = i(e[j]);
    return r;
  }
  static byte[] bytes(Value v) {
    Value[] e = t(v); byte[] r = new byte[e.length];
    for (int j = 0; j < r.length; j++) r[j] = (byte) i(e[j]);
    return r;
  }
  static Value tup(int[] a) { return tup(a, a.length); }
  static Value tup(int[] a, int n) {
    Value[] r = new Value[n];
    for (int j = 0; j < n; j++) r[j] = g(a[j]);
    return new TupleValue(r);
  }
  static Value tup(byte[] a) { return tup(a, a.length); }
  static Value tup(byte[] a, int n) {
    Value[] r = new Value[n];
    for (int j = 0; j < n; j++) r[j] = g(a[j] & 255);
    return new TupleValue(r);
  }
  static Value field(Value rec, String name) {
    RecordValue r = rec instanceof RecordValue ? (RecordValue) rec : (RecordValue) rec.toRcd();
    UniqueString u = UniqueString.uniqueStringOf(name);
    for (int j = 0; j < r.names.length; j++) if (r.names[j].equals(u)) return r.values[j];
    throw new RuntimeException("no field " + name);
  }
  /** rec("a", x, "b", y) */
  static Value rec(Object... kv) {
    UniqueString[] n = new UniqueString[kv.length / 2];
    Value[] v = new Value[n.length];
    for (int j = 0; j < n.length; j++) { n[j] = UniqueString.uniqueStringOf((String) kv[2 * j]); v[j] = (Value) kv[2 * j + 1]; }
    RecordValue r = new RecordValue(n, v, false);
    r.normalize();
    return r;
  }
  /** Words!Size */
  static long size(Value z) { Value[] e = t(z); return (long) i(e[0]) << 16 | i(e[1]); }
  static int be(byte[] b, int k) { return (b[k] & 255) << 24 | (b[k + 1] & 255) << 16 | (b[k + 2] & 255) << 8 | (b[k + 3] & 255); }
  static int le(byte[] b, int k) { return (b[k + 3] & 255) << 24 | (b[k + 2] & 255) << 16 | (b[k + 1] & 255) << 8 | (b[k] & 255); }
  static void putBe(int w, byte[] b, int k) { b[k] = (byte) (w >>> 24); b[k + 1] = (byte) (w >>> 16); b[k + 2] = (byte) (w >>> 8); b[k + 3] = (byte) w; }
  static void putLe(int w, byte[] b, int k) { b[k + 3] = (byte) (w >>> 24); b[k + 2] = (byte) (w >>> 16); b[k + 1] = (byte) (w >>> 8); b[k] = (byte) w; }
  /** the byte sequence of Words!Pattern */
  static final class Pat {
    int x;
    Pat(int seed) { x = seed; }
    int next() { x = x * 1664525 + 1013904223; return x >>> 24; }
    void fill(byte[] b, int n) { for (int j = 0; j < n; j++) b[j] = (byte) next(); }
  }
  /** Words!Checksum */
  static final class Sum {
    int x = 0x811c9dc5;
    void add(int b) { x = (x ^ (b & 255)) * 16777619; }
    void add(byte[] b, int n) { int y = x; for (int j = 0; j < n; j++) y = (y ^ (b[j] & 255)) * 16777619; x = y; }
  }
  interface Blocks { void next(byte[] ks); }
  /** checksum of n pattern bytes xored with a key stream that comes in blocks of size k */
  static int xorSum(Blocks ks, int k, int seed, long n) {
    Pat p = new Pat(seed); Sum s = new Sum(); byte[] b = new byte[k];
    while (n > 0) {
      ks.next(b);
      int m = (int) Math.min(k, n);
      for (int j = 0; j < m; j++) s.add(b[j] ^ p.next());
      n -= m;
    }
    return s.x;
  }
}
