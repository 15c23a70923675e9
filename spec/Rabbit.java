import tlc2.value.impl.*;
/** Java overrides of Rabbit.tla (compared with the definitions by RabbitCheck.tla). */
public class Rabbit {
  private static final int[] A = {0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3};
  private static final class St {
    int[] X, C; int b;
    St(Value v) { X = V.ints(V.field(v, "X")); C = V.ints(V.field(v, "C")); b = V.i(V.field(v, "b")); }
    Value val() { return V.rec("X", V.tup(X), "C", V.tup(C), "b", V.g(b)); }
    void next() {
      int[] g = new int[8];
      for (int j = 0; j < 8; j++) {
        long s = (C[j] & 0xffffffffL) + (A[j] & 0xffffffffL) + b;
        C[j] = (int) s; b = (int) (s >>> 32);
      }
      for (int j = 0; j < 8; j++) { long s = (X[j] + C[j]) & 0xffffffffL, p = s * s; g[j] = (int) (p ^ p >>> 32); }
      for (int j = 0; j < 8; j++)
        X[j] = j % 2 == 0 ? g[j] + Integer.rotateLeft(g[(j + 7) % 8], 16) + Integer.rotateLeft(g[(j + 6) % 8], 16)
                          : g[j] + Integer.rotateLeft(g[(j + 7) % 8], 8) + g[(j + 6) % 8];
    }
    void out(byte[] k) {
      next();
      V.putLe((X[0] ^ X[5] >>> 16 ^ X[3] << 16), k, 0);
      V.putLe((X[2] ^ X[7] >>> 16 ^ X[5] << 16), k, 4);
      V.putLe((X[4] ^ X[1] >>> 16 ^ X[7] << 16), k, 8);
      V.putLe((X[6] ^ X[3] >>> 16 ^ X[1] << 16), k, 12);
    }
  }
  public static Value Iterate(Value st) { St s = new St(st); s.next(); return s.val(); }
  public static Value RabbitBlocks(Value st, Value n) {
    St s = new St(st); byte[] r = new byte[16 * V.i(n)], k = new byte[16];
    for (int p = 0; p < r.length; p += 16) { s.out(k); System.arraycopy(k, 0, r, p, 16); }
    return V.rec("st", s.val(), "ks", V.tup(r));
  }
  public static Value RabbitLong(Value st, Value seed, Value z) {
    St s = new St(st);
    int x = V.xorSum(s::out, 16, V.i(seed), V.size(z));
    return V.rec("st", s.val(), "sum", V.g(x));
  }
}
