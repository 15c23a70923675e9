import tlc2.value.impl.*;
/** Java overrides of Hex.tla (compared with the definitions by HexCheck.tla). */
public class Hex {
  private static final byte[] D = "0123456789ABCDEF".getBytes();
  private static int val(int c) { return c < 65 ? c - 48 : c - 55; }
  public static Value Encode(Value v) {
    byte[] b = V.bytes(v), r = new byte[2 * b.length];
    for (int j = 0; j < b.length; j++) { r[2 * j] = D[b[j] >> 4 & 15]; r[2 * j + 1] = D[b[j] & 15]; }
    return V.tup(r);
  }
  public static Value Decode(Value v) {
    int[] t = V.ints(v), r = new int[t.length / 2];
    for (int j = 0; j < r.length; j++) r[j] = 16 * val(t[2 * j]) + val(t[2 * j + 1]);
    return V.tup(r);
  }
  public static Value EncodeLong(Value seed, Value z) {
    V.Pat p = new V.Pat(V.i(seed)); V.Sum s = new V.Sum();
    for (long n = V.size(z); n > 0; n--) { int b = p.next(); s.add(D[b >> 4]); s.add(D[b & 15]); }
    s.add(0);
    return V.g(s.x);
  }
}
