import tlc2.value.impl.*;
/** Java overrides of Des.tla (compared with the definitions by DesCheck.tla). */
public class Des {
  private static final int[] IP = {58,50,42,34,26,18,10,2, 60,52,44,36,28,20,12,4, 62,54,46,38,30,22,14,6, 64,56,48,40,32,24,16,8,
    57,49,41,33,25,17,9,1, 59,51,43,35,27,19,11,3, 61,53,45,37,29,21,13,5, 63,55,47,39,31,23,15,7};
  private static final int[] FP = new int[64];
  private static final int[] E = {32,1,2,3,4,5, 4,5,6,7,8,9, 8,9,10,11,12,13, 12,13,14,15,16,17, 16,17,18,19,20,21, 20,21,22,23,24,25,
    24,25,26,27,28,29, 28,29,30,31,32,1};
  private static final int[] P = {16,7,20,21, 29,12,28,17, 1,15,23,26, 5,18,31,10, 2,8,24,14, 32,27,3,9, 19,13,30,6, 22,11,4,25};
  private static final String[] SB = {
    "e4d12fb83a6c59070f74e2d1a6cb953841e8d62bfc973a50fc8249175b3ea06d",
    "f18e6b34972dc05a3d47f28ec01a69b50e7ba4d158c6932fd8a13f42b67c05e9",
    "a09e63f51dc7b428d709346a285ecbf1d6498f30b12c5ae71ad069874fe3b52c",
    "7de3069a1285bc4fd8b56f03472c1ae9a690cb7df13e52843f06a1d8945bc72e",
    "2c417ab6853fd0e9eb2c47d150fa3986421bad78f9c5630eb8c71e2d6f09a453",
    "c1af92680d34e75baf427c9561de0b389ef528c3704a1db6432c95fabe17608d",
    "4b2ef08d3c975a61d0b7491ae35c2f8614bdc37eaf6805926bd814a7950fe23c",
    "d2846fb1a93e50c71fd8a374c56b0e927b419ce206adf35821e74a8dfc90356b"};
  private static final int[][] S = new int[8][64];
  static {
    for (int j = 0; j < 64; j++) FP[IP[j] - 1] = j + 1;
    for (int j = 0; j < 8; j++) for (int k = 0; k < 64; k++) S[j][k] = Character.digit(SB[j].charAt(k), 16);
  }
  private static void sel(int[] from, int[] table, int[] to) { for (int j = 0; j < table.length; j++) to[j] = from[table[j] - 1]; }
  private static int[][] keys(Value ks) { Value[] e = V.t(ks); int[][] r = new int[e.length][]; for (int j = 0; j < r.length; j++) r[j] = V.ints(e[j]); return r; }
  private static byte[] block(int[][] ks, byte[] in) {
    int[] x = new int[64], b = new int[64], e = new int[48], o = new int[32], f = new int[32];
    for (int j = 0; j < 64; j++) x[j] = in[j / 8] >>> (7 - j % 8) & 1;
    sel(x, IP, b);
    int[] l = java.util.Arrays.copyOfRange(b, 0, 32), r = java.util.Arrays.copyOfRange(b, 32, 64);
    for (int[] k : ks) {
      sel(r, E, e);
      for (int j = 0; j < 48; j++) e[j] ^= k[j];
      for (int j = 0; j < 8; j++) {
        int q = 6 * j, v = S[j][(2 * e[q] + e[q + 5]) * 16 + 8 * e[q + 1] + 4 * e[q + 2] + 2 * e[q + 3] + e[q + 4]];
        for (int i = 0; i < 4; i++) o[4 * j + i] = v >>> (3 - i) & 1;
      }
      sel(o, P, f);
      for (int j = 0; j < 32; j++) f[j] ^= l[j];
      int[] t = l; l = r; r = f; f = t;
    }
    System.arraycopy(r, 0, b, 0, 32); System.arraycopy(l, 0, b, 32, 32);
    sel(b, FP, x);
    byte[] out = new byte[8];
    for (int j = 0; j < 64; j++) out[j / 8] |= x[j] << (7 - j % 8);
    return out;
  }
  public static Value DesBlock(Value ks, Value in) { return V.tup(block(keys(ks), V.bytes(in))); }
  public static Value EcbLong(Value ks, Value seed, Value z) {
    int[][] k = keys(ks); V.Pat p = new V.Pat(V.i(seed)); V.Sum s = new V.Sum(); byte[] b = new byte[8];
    for (long n = V.size(z); n >= 8; n -= 8) { p.fill(b, 8); s.add(block(k, b), 8); }
    return V.g(s.x);
  }
}
