import tlc2.value.impl.*;
/** Java overrides of Sosemanuk.tla (compared with the definitions by SosemanukCheck.tla). */
public class Sosemanuk {
  private static final int[] MUL = new int[256], DIV = new int[256];
  private static int dbl(int a) { return (a << 1 ^ ((a >>> 7) * 0x1a9)) & 255; }
  private static int mul(int a, int b) { int r = 0; for (; b != 0; b >>>= 1, a = dbl(a)) if ((b & 1) != 0) r ^= a; return r; }
  static {
    int[] beta = new int[256];
    beta[0] = 1;
    for (int j = 1; j < 256; j++) beta[j] = dbl(beta[j - 1]);
    for (int c = 0; c < 256; c++) {
      MUL[c] = mul(beta[23], c) << 24 | mul(beta[245], c) << 16 | mul(beta[48], c) << 8 | mul(beta[239], c);
      DIV[c] = mul(beta[16], c) << 24 | mul(beta[39], c) << 16 | mul(beta[6], c) << 8 | mul(beta[64], c);
    }
  }
  private static final class St {
    int[] s; int r1, r2; final int[] f = new int[4], o = new int[4];
    St(Value v) { s = V.ints(V.field(v, "s")); r1 = V.i(V.field(v, "R1")); r2 = V.i(V.field(v, "R2")); }
    Value val() { return V.rec("s", V.tup(s), "R1", V.g(r1), "R2", V.g(r2)); }
    void step(int j) {
      int a = r2 + ((r1 & 1) == 0 ? s[1] : s[1] ^ s[8]);
      r2 = Integer.rotateLeft(1415926535 * r1, 7);
      r1 = a;
      f[j] = (s[9] + r1) ^ r2; o[j] = s[0];
      int n = s[9] ^ s[3] >>> 8 ^ DIV[s[3] & 255] ^ s[0] << 8 ^ MUL[s[0] >>> 24];
      System.arraycopy(s, 1, s, 0, 9);
      s[9] = n;
    }
    void block(byte[] k) {
      for (int j = 0; j < 4; j++) step(j);
      int[] z = Serpent.sbox(2, f);
      for (int j = 0; j < 4; j++) V.putLe(z[j] ^ o[j], k, 4 * j);
    }
  }
  public static Value MulAlpha(Value w) { int x = V.i(w); return V.g(x << 8 ^ MUL[x >>> 24]); }
  public static Value DivAlpha(Value w) { int x = V.i(w); return V.g(x >>> 8 ^ DIV[x & 255]); }
  public static Value SosBlocks(Value st, Value n) {
    St s = new St(st); byte[] r = new byte[16 * V.i(n)], k = new byte[16];
    for (int p = 0; p < r.length; p += 16) { s.block(k); System.arraycopy(k, 0, r, p, 16); }
    return V.rec("st", s.val(), "ks", V.tup(r));
  }
  public static Value SosLong(Value st, Value seed, Value z) {
    St s = new St(st); long n = V.size(z);
    int x = V.xorSum(s::block, 16, V.i(seed), n);
    if (n % 16 == 0) s.block(new byte[16]);      // n / 16 + 1 blocks
    return V.rec("st", s.val(), "sum", V.g(x));
  }
}
