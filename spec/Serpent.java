import tlc2.value.impl.*;
/** Java overrides of Serpent.tla (compared with the definitions by SerpentCheck.tla). */
public class Serpent {
  static final int[][] S = {
    {3, 8, 15, 1, 10, 6, 5, 11, 14, 13, 4, 2, 7, 0, 9, 12}, {15, 12, 2, 7, 9, 0, 5, 10, 1, 11, 14, 8, 6, 13, 3, 4},
    {8, 6, 7, 9, 3, 12, 10, 15, 13, 1, 14, 4, 0, 11, 5, 2}, {0, 15, 11, 8, 12, 9, 6, 3, 13, 1, 2, 4, 10, 7, 5, 14},
    {1, 15, 8, 3, 12, 0, 11, 6, 2, 5, 4, 10, 9, 14, 7, 13}, {15, 5, 2, 11, 4, 10, 9, 12, 0, 3, 14, 8, 13, 6, 7, 1},
    {7, 2, 12, 5, 8, 4, 6, 11, 14, 9, 1, 15, 13, 3, 10, 0}, {1, 13, 15, 0, 14, 8, 2, 11, 7, 4, 12, 10, 9, 3, 5, 6}};
  static int[] sbox(int n, int[] x) {
    int[] t = S[n], r = new int[4];
    for (int b = 0; b < 32; b++) {
      int v = t[(x[0] >>> b & 1) | (x[1] >>> b & 1) << 1 | (x[2] >>> b & 1) << 2 | (x[3] >>> b & 1) << 3];
      r[0] |= (v & 1) << b; r[1] |= (v >>> 1 & 1) << b; r[2] |= (v >>> 2 & 1) << b; r[3] |= (v >>> 3) << b;
    }
    return r;
  }
  public static Value SBoxW(Value n, Value x) { return V.tup(sbox(V.i(n), V.ints(x))); }
}
