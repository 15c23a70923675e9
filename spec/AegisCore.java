import tlc2.value.impl.*;
/** Java overrides of AegisCore.tla (compared with the definitions by AegisCheck.tla). */
public class AegisCore {
  private static final class St {
    int[][] s = new int[5][];
    void upd(int[] m) {
      int[] a = {s[0][0] ^ m[0], s[0][1] ^ m[1], s[0][2] ^ m[2], s[0][3] ^ m[3]};
      s = new int[][] {Aes.round(s[4], a), Aes.round(s[0], s[1]), Aes.round(s[1], s[2]), Aes.round(s[2], s[3]), Aes.round(s[3], s[4])};
    }
    int ks(int j) { return s[1][j] ^ s[4][j] ^ (s[2][j] & s[3][j]); }
  }
  private static St of(Value S) {
    St r = new St(); Value[] e = V.t(S);
    for (int j = 0; j < 5; j++) r.s[j] = V.ints(e[j]);
    return r;
  }
  private static Value to(St r) {
    Value[] e = new Value[5];
    for (int j = 0; j < 5; j++) e[j] = V.tup(r.s[j]);
    return new TupleValue(e);
  }
  private static int[] x(int[] a, int[] b) { return new int[] {a[0] ^ b[0], a[1] ^ b[1], a[2] ^ b[2], a[3] ^ b[3]}; }
  private static int[] blk(byte[] b) { return new int[] {V.be(b, 0), V.be(b, 4), V.be(b, 8), V.be(b, 12)}; }
  private static St setup(byte[] key, byte[] iv) {
    int[] k = blk(key), v = blk(iv);
    int[] c0 = {0x00010102, 0x0305080d, 0x15223759, 0x90e97962}, c1 = {0xdb3d1855, 0x6dc22ff1, 0x20113142, 0x73b528dd};
    St r = new St();
    r.s = new int[][] {x(k, v), c1, c0, x(k, c0), x(k, c1)};
    int[] kv = x(k, v);
    for (int j = 0; j < 5; j++) { r.upd(k); r.upd(kv); }
    return r;
  }
  public static Value Update(Value S, Value m) { St r = of(S); r.upd(V.ints(m)); return to(r); }
  public static Value Setup(Value key, Value iv) { return to(setup(V.bytes(key), V.bytes(iv))); }
  private static void absorb(St r, V.Pat p, long n) {
    byte[] b = new byte[16];
    for (; n > 0; n -= 16) {
      int m = (int) Math.min(16, n);
      java.util.Arrays.fill(b, (byte) 0);
      p.fill(b, m);
      r.upd(blk(b));
    }
  }
  public static Value Absorb(Value S, Value data) {
    St r = of(S); byte[] d = V.bytes(data), b = new byte[16];
    for (int p = 0; p < d.length; p += 16) {
      java.util.Arrays.fill(b, (byte) 0);
      System.arraycopy(d, p, b, 0, Math.min(16, d.length - p));
      r.upd(blk(b));
    }
    return to(r);
  }
  /** b: n bytes, padded with zeros; returns the ciphertext in it */
  private static void enc(St r, byte[] b, int n) {
    int[] m = blk(b);
    byte[] c = new byte[16];
    for (int j = 0; j < 4; j++) V.putBe(m[j] ^ r.ks(j), c, 4 * j);
    r.upd(m);
    System.arraycopy(c, 0, b, 0, n);
  }
  public static Value SealLong(Value key, Value iv, Value adseed, Value adz, Value seed, Value z) {
    St r = setup(V.bytes(key), V.bytes(iv));
    long an = V.size(adz), n = V.size(z);
    absorb(r, new V.Pat(V.i(adseed)), an);
    V.Pat p = new V.Pat(V.i(seed)); V.Sum s = new V.Sum(); byte[] b = new byte[16];
    for (long left = n; left > 0; left -= 16) {
      int m = (int) Math.min(16, left);
      java.util.Arrays.fill(b, (byte) 0);
      p.fill(b, m);
      enc(r, b, m);
      s.add(b, m);
    }
    return V.rec("sum", V.g(s.x), "tag", V.tup(tag(r, an, n)));
  }
  private static byte[] tag(St r, long an, long n) {
    byte[] b = new byte[16];
    V.putLe((int) (an << 3), b, 0); V.putLe((int) (an >>> 29), b, 4); V.putLe((int) (n << 3), b, 8); V.putLe((int) (n >>> 29), b, 12);
    int[] t = x(r.s[3], blk(b));
    for (int j = 0; j < 7; j++) r.upd(t);
    for (int j = 0; j < 4; j++) V.putBe(r.s[0][j] ^ r.s[1][j] ^ r.s[2][j] ^ r.s[3][j] ^ r.s[4][j], b, 4 * j);
    return b;
  }
  public static Value TagOf(Value S, Value adlen, Value msglen) { return V.tup(tag(of(S), V.i(adlen), V.i(msglen))); }
}
