import tlc2.value.impl.*;
/** Java overrides of AesModes.tla (compared with the definitions by AesModesCheck.tla). */
public class AesModes {
  private static void put(int[] s, byte[] b) { for (int j = 0; j < 4; j++) V.putBe(s[j], b, 4 * j); }
  private static int[] get(byte[] b) { return new int[] {V.be(b, 0), V.be(b, 4), V.be(b, 8), V.be(b, 12)}; }
  public static Value CtrOut(Value rk, Value middle, Value nonce, Value ctr, Value in) {
    Aes.Cipher e = new Aes.Cipher(rk, middle);
    byte[] iv = V.bytes(nonce), d = V.bytes(in), ks = new byte[16];
    int c = V.i(ctr);
    for (int p = 0; p < d.length; p += 16) {
      int[] s = {V.be(iv, 0), V.be(iv, 4), V.be(iv, 8), c++};
      e.enc(s); put(s, ks);
      for (int j = 0; j < 16 && p + j < d.length; j++) d[p + j] ^= ks[j];
    }
    return V.tup(d);
  }
  public static Value CtrLong(Value rk, Value middle, Value nonce, Value ctr, Value seed, Value z) {
    Aes.Cipher e = new Aes.Cipher(rk, middle);
    byte[] iv = V.bytes(nonce);
    int[] c = {V.i(ctr)}, s = new int[4];
    int x = V.be(iv, 0), y = V.be(iv, 4), w = V.be(iv, 8);
    return V.g(V.xorSum(ks -> { s[0] = x; s[1] = y; s[2] = w; s[3] = c[0]++; e.enc(s); put(s, ks); }, 16, V.i(seed), V.size(z)));
  }
  /** reg is replaced by the register afterwards; data by the output */
  private static void cfb(Aes.Cipher e, byte[] reg, byte[] d, int n, boolean dec) {
    byte[] ks = new byte[16];
    int[] s = get(reg);
    e.enc(s); put(s, ks);
    byte[] c = new byte[n];
    for (int j = 0; j < n; j++) { byte o = (byte) (d[j] ^ ks[j]); c[j] = dec ? d[j] : o; d[j] = o; }
    System.arraycopy(reg, n, reg, 0, 16 - n);
    System.arraycopy(c, 0, reg, 16 - n, n);
  }
  private static Value whole(Value rk, Value middle, Value reg, Value in, boolean dec) {
    Aes.Cipher e = new Aes.Cipher(rk, middle);
    byte[] r = V.bytes(reg), d = V.bytes(in), b = new byte[16];
    for (int p = 0; p < d.length; p += 16) {
      int n = Math.min(16, d.length - p);
      System.arraycopy(d, p, b, 0, n);
      cfb(e, r, b, n, dec);
      System.arraycopy(b, 0, d, p, n);
    }
    return V.tup(d);
  }
  public static Value CfbEncOut(Value rk, Value middle, Value reg, Value in) { return whole(rk, middle, reg, in, false); }
  public static Value CfbDecOut(Value rk, Value middle, Value reg, Value in) { return whole(rk, middle, reg, in, true); }
  private static Value sum(Value rk, Value middle, Value reg, Value seed, Value z, boolean dec) {
    Aes.Cipher e = new Aes.Cipher(rk, middle);
    byte[] r = V.bytes(reg), b = new byte[16];
    V.Pat p = new V.Pat(V.i(seed)); V.Sum s = new V.Sum();
    for (long left = V.size(z); left > 0; left -= 16) {
      int n = (int) Math.min(16, left);
      p.fill(b, n);
      cfb(e, r, b, n, dec);
      s.add(b, n);
    }
    return V.rec("sum", V.g(s.x), "reg", V.tup(r));
  }
  public static Value CfbEncLong(Value rk, Value middle, Value reg, Value seed, Value z) { return sum(rk, middle, reg, seed, z, false); }
  public static Value CfbDecLong(Value rk, Value middle, Value reg, Value seed, Value z) { return sum(rk, middle, reg, seed, z, true); }
}
