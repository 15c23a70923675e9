import tlc2.value.impl.*;
/** Java overrides of the operators of Words.tla (same meaning, compared by WordsCheck.tla). */
public class Words {
  private static int i(Value v) { return ((IntValue) v).val; }
  private static IntValue g(int x) { return IntValue.gen(x); }
  private static Value[] t(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    return ((TupleValue) v.toTuple()).elems;
  }
  public static Value XorB(Value a, Value b) { return g(i(a) ^ i(b)); }
  public static Value AndB(Value a, Value b) { return g(i(a) & i(b)); }
  public static Value XorW(Value a, Value b) { return g(i(a) ^ i(b)); }
  public static Value AndW(Value a, Value b) { return g(i(a) & i(b)); }
  public static Value OrW(Value a, Value b) { return g(i(a) | i(b)); }
  public static Value NotW(Value a) { return g(~i(a)); }
  public static Value AddW(Value a, Value b) { return g(i(a) + i(b)); }
  public static Value NegW(Value a) { return g(-i(a)); }
  public static Value SubW(Value a, Value b) { return g(i(a) - i(b)); }
  public static Value CarryW(Value a, Value b, Value c) {
    long s = (i(a) & 0xffffffffL) + (i(b) & 0xffffffffL) + i(c);
    return g((int) (s >>> 32));
  }
  public static Value ShlW(Value a, Value b) { int n = i(b); return g(n >= 32 ? 0 : i(a) << n); }
  public static Value ShrW(Value a, Value b) { int n = i(b); return g(n >= 32 ? 0 : i(a) >>> n); }
  public static Value RotlW(Value a, Value b) { return g(Integer.rotateLeft(i(a), i(b))); }
  public static Value RotrW(Value a, Value b) { return g(Integer.rotateRight(i(a), i(b))); }
  public static Value MulHiLo(Value a, Value b) {
    long p = (i(a) & 0xffffffffL) * (i(b) & 0xffffffffL);
    return new TupleValue(g((int) (p >>> 32)), g((int) p));
  }
  public static Value MulW(Value a, Value b) { return g(i(a) * i(b)); }
  public static Value Byte3(Value w) { return g(i(w) >>> 24); }
  public static Value Byte2(Value w) { return g((i(w) >>> 16) & 255); }
  public static Value Byte1(Value w) { return g((i(w) >>> 8) & 255); }
  public static Value Byte0(Value w) { return g(i(w) & 255); }
  public static Value BytesBE(Value w) { return new TupleValue(new Value[] {Byte3(w), Byte2(w), Byte1(w), Byte0(w)}); }
  public static Value BytesLE(Value w) { return new TupleValue(new Value[] {Byte0(w), Byte1(w), Byte2(w), Byte3(w)}); }
  private static int be(Value[] b, int k) { return i(b[k]) << 24 | i(b[k + 1]) << 16 | i(b[k + 2]) << 8 | i(b[k + 3]); }
  private static int le(Value[] b, int k) { return i(b[k + 3]) << 24 | i(b[k + 2]) << 16 | i(b[k + 1]) << 8 | i(b[k]); }
  public static Value WordBE(Value b, Value k) { return g(be(t(b), i(k) - 1)); }
  public static Value WordLE(Value b, Value k) { return g(le(t(b), i(k) - 1)); }
  public static Value WordsToBytesBE(Value ws) {
    Value[] e = t(ws); Value[] r = new Value[4 * e.length];
    for (int j = 0; j < e.length; j++) { int w = i(e[j]);
      r[4*j] = g(w >>> 24); r[4*j+1] = g(w >>> 16 & 255); r[4*j+2] = g(w >>> 8 & 255); r[4*j+3] = g(w & 255); }
    return new TupleValue(r);
  }
  public static Value WordsToBytesLE(Value ws) {
    Value[] e = t(ws); Value[] r = new Value[4 * e.length];
    for (int j = 0; j < e.length; j++) { int w = i(e[j]);
      r[4*j+3] = g(w >>> 24); r[4*j+2] = g(w >>> 16 & 255); r[4*j+1] = g(w >>> 8 & 255); r[4*j] = g(w & 255); }
    return new TupleValue(r);
  }
  public static Value BytesToWordsBE(Value bs) {
    Value[] e = t(bs); Value[] r = new Value[e.length / 4];
    for (int j = 0; j < r.length; j++) r[j] = g(be(e, 4 * j));
    return new TupleValue(r);
  }
  public static Value BytesToWordsLE(Value bs) {
    Value[] e = t(bs); Value[] r = new Value[e.length / 4];
    for (int j = 0; j < r.length; j++) r[j] = g(le(e, 4 * j));
    return new TupleValue(r);
  }
  public static Value XorSeq(Value a, Value b) {
    Value[] x = t(a), y = t(b), r = new Value[x.length];
    for (int j = 0; j < r.length; j++) r[j] = g(i(x[j]) ^ i(y[j]));
    return new TupleValue(r);
  }
  public static Value XorWSeq(Value a, Value b) { return XorSeq(a, b); }
  public static Value Zeros(Value n) {
    Value[] r = new Value[i(n)];
    for (int j = 0; j < r.length; j++) r[j] = g(0);
    return new TupleValue(r);
  }
  public static Value Pattern(Value seed, Value n) { byte[] b = new byte[i(n)]; new V.Pat(i(seed)).fill(b, b.length); return V.tup(b); }
  public static Value Checksum(Value bs) { byte[] b = V.bytes(bs); V.Sum s = new V.Sum(); s.add(b, b.length); return g(s.x); }
  public static Value ChecksumOn(Value x, Value bs) { byte[] b = V.bytes(bs); V.Sum s = new V.Sum(); s.x = i(x); s.add(b, b.length); return g(s.x); }
  public static Value PatternSum(Value seed, Value n) {
    V.Pat p = new V.Pat(i(seed)); V.Sum s = new V.Sum();
    for (long k = V.size(n); k > 0; k--) s.add(p.next());
    return g(s.x);
  }
}
