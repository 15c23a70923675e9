import tlc2.value.impl.*;
/** Java overrides of ChaCha.tla (compared with the definitions by ChaChaCheck.tla). */
public class ChaCha {
  private static void q(int[] s, int a, int b, int c, int d) {
    s[a] += s[b]; s[d] = Integer.rotateLeft(s[d] ^ s[a], 16);
    s[c] += s[d]; s[b] = Integer.rotateLeft(s[b] ^ s[c], 12);
    s[a] += s[b]; s[d] = Integer.rotateLeft(s[d] ^ s[a], 8);
    s[c] += s[d]; s[b] = Integer.rotateLeft(s[b] ^ s[c], 7);
  }
  private static void block(int rounds, int[] key, int[] nonce, int ctr, byte[] out) {
    int[] s = new int[16], o;
    s[0] = 0x61707865; s[1] = 0x3320646e; s[2] = 0x79622d32; s[3] = 0x6b206574;
    System.arraycopy(key, 0, s, 4, 8);
    s[12] = ctr;
    System.arraycopy(nonce, 0, s, 13, 3);
    o = s.clone();
    for (int j = 0; j < rounds / 2; j++) {
      q(s, 0, 4, 8, 12); q(s, 1, 5, 9, 13); q(s, 2, 6, 10, 14); q(s, 3, 7, 11, 15);
      q(s, 0, 5, 10, 15); q(s, 1, 6, 11, 12); q(s, 2, 7, 8, 13); q(s, 3, 4, 9, 14);
    }
    for (int j = 0; j < 16; j++) V.putLe(s[j] + o[j], out, 4 * j);
  }
  public static Value BlockOf(Value rounds, Value key, Value nonce, Value ctr) {
    byte[] b = new byte[64];
    block(V.i(rounds), V.ints(key), V.ints(nonce), V.i(ctr), b);
    return V.tup(b);
  }
  public static Value SumOf(Value rounds, Value st, Value seed, Value z) {
    int[] key = V.ints(V.field(st, "key")), nonce = V.ints(V.field(st, "nonce")), c = {1};
    int r = V.i(rounds);
    return V.g(V.xorSum(ks -> block(r, key, nonce, c[0]++, ks), 64, V.i(seed), V.size(z)));
  }
}
