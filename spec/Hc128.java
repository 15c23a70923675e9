import tlc2.value.impl.*;
/** Java overrides of Hc128.tla (compared with the definitions by Hc128Check.tla). */
public class Hc128 {
  private static int l(int x, int n) { return Integer.rotateLeft(x, n); }
  private static final class St {
    final int[] P, Q; int n;
    St(int[] p, int[] q, int k) { P = p; Q = q; n = k; }
    St(Value v) { this(V.ints(V.field(v, "P")), V.ints(V.field(v, "Q")), V.i(V.field(v, "n"))); }
    Value val() { return V.rec("P", V.tup(P), "Q", V.tup(Q), "n", V.g(n)); }
    int step() {
      int j = n & 511; int[] t = n < 512 ? P : Q, u = n < 512 ? Q : P;
      int x = t[(j - 3) & 511], y = t[(j - 10) & 511], w = t[(j - 511) & 511];
      t[j] += n < 512 ? (l(x, 22) ^ l(w, 9)) + l(y, 24) : (l(x, 10) ^ l(w, 23)) + l(y, 8);
      n = (n + 1) & 1023;
      int a = t[(j - 12) & 511];
      return (u[a & 255] + u[256 + (a >>> 16 & 255)]) ^ t[j];
    }
  }
  public static Value Hc128Init(Value key, Value iv) {
    int[] w = new int[1280]; byte[] k = V.bytes(key), v = V.bytes(iv);
    for (int j = 0; j < 16; j++) w[j] = V.le(j < 8 ? k : v, 4 * (j % 4));
    for (int j = 16; j < 1280; j++) {
      int a = w[j - 2], b = w[j - 15];
      w[j] = (l(a, 15) ^ l(a, 13) ^ a >>> 10) + w[j - 7] + (l(b, 25) ^ l(b, 14) ^ b >>> 3) + w[j - 16] + j;
    }
    St s = new St(java.util.Arrays.copyOfRange(w, 256, 768), java.util.Arrays.copyOfRange(w, 768, 1280), 0);
    for (int j = 0; j < 1024; j++) { int z = s.step(); if (j < 512) s.P[j] = z; else s.Q[j - 512] = z; }
    return s.val();
  }
  public static Value Hc128Words(Value S, Value n) {
    St s = new St(S); int[] ws = new int[V.i(n)];
    for (int j = 0; j < ws.length; j++) ws[j] = s.step();
    return V.rec("st", s.val(), "ws", V.tup(ws));
  }
  public static Value Hc128Long(Value st, Value seed, Value z) {
    St s = new St(st);
    int x = V.xorSum(ks -> V.putLe(s.step(), ks, 0), 4, V.i(seed), V.size(z));
    return V.rec("st", s.val(), "sum", V.g(x));
  }
}
