import tlc2.value.impl.*;
/** Java overrides of Sha256.tla (compared with the definitions by Sha256Check.tla). */
public class Sha256 {
  private static final int[] K = new int[64], H = new int[8];
  static {     // fractional parts of cube and square roots of the first primes
    int n = 0;
    for (int p = 2; n < 64; p++) {
      boolean prime = true;
      for (int d = 2; d * d <= p; d++) if (p % d == 0) prime = false;
      if (!prime) continue;
      java.math.BigInteger b = java.math.BigInteger.valueOf(p);
      if (n < 8) H[n] = b.shiftLeft(64).sqrt().intValue();
      java.math.BigInteger c = b.shiftLeft(96), lo = java.math.BigInteger.ZERO, hi = java.math.BigInteger.ONE.shiftLeft(40);
      while (hi.subtract(lo).bitLength() > 1) { java.math.BigInteger m = lo.add(hi).shiftRight(1); if (m.pow(3).compareTo(c) <= 0) lo = m; else hi = m; }
      K[n++] = lo.intValue();
    }
  }
  private static int rr(int x, int n) { return Integer.rotateRight(x, n); }
  static void compress(int[] h, int[] w16) {
    int[] w = new int[64];
    System.arraycopy(w16, 0, w, 0, 16);
    for (int t = 16; t < 64; t++) {
      int a = w[t - 2], b = w[t - 15];
      w[t] = (rr(a, 17) ^ rr(a, 19) ^ a >>> 10) + w[t - 7] + (rr(b, 7) ^ rr(b, 18) ^ b >>> 3) + w[t - 16];
    }
    int a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], i = h[7];
    for (int t = 0; t < 64; t++) {
      int t1 = i + (rr(e, 6) ^ rr(e, 11) ^ rr(e, 25)) + ((e & f) ^ (~e & g)) + K[t] + w[t];
      int t2 = (rr(a, 2) ^ rr(a, 13) ^ rr(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
      i = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += i;
  }
  private static final class Ctx {
    final int[] h = H.clone(), w = new int[16]; final byte[] b = new byte[64]; int k; long n;
    void add(byte x) {
      b[k++] = x; n++;
      if (k == 64) { for (int j = 0; j < 16; j++) w[j] = V.be(b, 4 * j); compress(h, w); k = 0; }
    }
    byte[] end() {
      long bits = n << 3;
      add((byte) 128);
      while (k != 56) add((byte) 0);
      for (int j = 7; j >= 0; j--) add((byte) (bits >>> 8 * j));
      byte[] r = new byte[32];
      for (int j = 0; j < 8; j++) V.putBe(h[j], r, 4 * j);
      return r;
    }
  }
  public static Value Compress(Value h, Value w) { int[] x = V.ints(h); compress(x, V.ints(w)); return V.tup(x); }
  public static Value Digest(Value m) { Ctx c = new Ctx(); for (byte x : V.bytes(m)) c.add(x); return V.tup(c.end()); }
  public static Value DigestLong(Value prefix, Value seed, Value z) {
    Ctx c = new Ctx();
    for (byte x : V.bytes(prefix)) c.add(x);
    V.Pat p = new V.Pat(V.i(seed));
    for (long n = V.size(z); n > 0; n--) c.add((byte) p.next());
    return V.tup(c.end());
  }
}
