import tlc2.value.impl.*;
/** Java overrides of Aes.tla (compared with the definitions by AesCheck.tla). */
public class Aes {
  static final int[] S = new int[256];
  static final int[] T0 = new int[256], T1 = new int[256], T2 = new int[256], T3 = new int[256];
  static int xt(int a) { return (a << 1 ^ ((a >>> 7) * 0x11b)) & 0xff; }
  static {
    int[] pow = new int[256], log = new int[256];
    for (int k = 0, x = 1; k < 255; k++) { pow[k] = x; log[x] = k; x ^= xt(x); }
    for (int a = 0; a < 256; a++) {
      int b = a == 0 ? 0 : pow[(255 - log[a]) % 255], r = 0x63;
      for (int k = 0; k < 5; k++) r ^= (b << k | b >>> (8 - k)) & 255;
      S[a] = r;
      T0[a] = xt(r) << 24 | r << 16 | r << 8 | (xt(r) ^ r);
      T1[a] = Integer.rotateRight(T0[a], 8); T2[a] = Integer.rotateRight(T0[a], 16); T3[a] = Integer.rotateRight(T0[a], 24);
    }
  }
  static int mix(int a, int b, int c, int d, int k) { return k ^ T0[a >>> 24] ^ T1[b >>> 16 & 255] ^ T2[c >>> 8 & 255] ^ T3[d & 255]; }
  static int last(int a, int b, int c, int d, int k) { return k ^ (S[a >>> 24] << 24 | S[b >>> 16 & 255] << 16 | S[c >>> 8 & 255] << 8 | S[d & 255]); }
  static int sub(int w) { return S[w >>> 24] << 24 | S[w >>> 16 & 255] << 16 | S[w >>> 8 & 255] << 8 | S[w & 255]; }
  /** round keys used: first, the middle ones, last */
  static final class Cipher {
    final int[] k; final int n;
    Cipher(Value rk, Value middle) {
      Value[] r = V.t(rk); int[] m = V.ints(middle);
      n = m.length; k = new int[4 * (n + 2)];
      System.arraycopy(V.ints(r[0]), 0, k, 0, 4);
      for (int j = 0; j < n; j++) System.arraycopy(V.ints(r[m[j] - 1]), 0, k, 4 * (j + 1), 4);
      System.arraycopy(V.ints(r[10]), 0, k, 4 * (n + 1), 4);
    }
    void enc(int[] s) {
      int a = s[0] ^ k[0], b = s[1] ^ k[1], c = s[2] ^ k[2], d = s[3] ^ k[3], p = 4;
      for (int j = 0; j < n; j++, p += 4) {
        int e = mix(a, b, c, d, k[p]), f = mix(b, c, d, a, k[p + 1]), g = mix(c, d, a, b, k[p + 2]), h = mix(d, a, b, c, k[p + 3]);
        a = e; b = f; c = g; d = h;
      }
      s[0] = last(a, b, c, d, k[p]); s[1] = last(b, c, d, a, k[p + 1]); s[2] = last(c, d, a, b, k[p + 2]); s[3] = last(d, a, b, c, k[p + 3]);
    }
  }
  static int[] round(int[] s, int[] k) {
    return new int[] {mix(s[0], s[1], s[2], s[3], k[0]), mix(s[1], s[2], s[3], s[0], k[1]), mix(s[2], s[3], s[0], s[1], k[2]), mix(s[3], s[0], s[1], s[2], k[3])};
  }
  public static Value Round(Value s, Value k) { return V.tup(round(V.ints(s), V.ints(k))); }
  public static Value EncryptBlock(Value rk, Value middle, Value block) {
    int[] s = V.ints(block);
    new Cipher(rk, middle).enc(s);
    return V.tup(s);
  }
  public static Value EncryptBytes(Value rk, Value middle, Value bytes) {
    byte[] b = V.bytes(bytes); int[] s = {V.be(b, 0), V.be(b, 4), V.be(b, 8), V.be(b, 12)};
    new Cipher(rk, middle).enc(s);
    for (int j = 0; j < 4; j++) V.putBe(s[j], b, 4 * j);
    return V.tup(b);
  }
  public static Value KeyExpansion(Value key) {
    byte[] b = V.bytes(key); int[] w = new int[44];
    for (int j = 0; j < 4; j++) w[j] = V.be(b, 4 * j);
    for (int j = 4, rc = 1; j < 44; j++) {
      int t = w[j - 1];
      if (j % 4 == 0) { t = sub(Integer.rotateLeft(t, 8)) ^ rc << 24; rc = xt(rc); }
      w[j] = w[j - 4] ^ t;
    }
    Value[] r = new Value[11];
    for (int j = 0; j < 11; j++) r[j] = V.tup(new int[] {w[4 * j], w[4 * j + 1], w[4 * j + 2], w[4 * j + 3]});
    return new TupleValue(r);
  }
}
