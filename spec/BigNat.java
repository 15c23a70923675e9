import tlc2.value.impl.*;
import java.math.BigInteger;
/** Java overrides of the operators of BigNat.tla (same meaning, compared by BigNatCheck.tla). */
public class BigNat {
  private static BigInteger n(Value v) {
    Value[] e = v instanceof TupleValue ? ((TupleValue) v).elems : ((TupleValue) v.toTuple()).elems;
    byte[] b = new byte[e.length + 1];
    for (int j = 0; j < e.length; j++) b[e.length - j] = (byte) ((IntValue) e[j]).val;
    return new BigInteger(b);
  }
  private static Value g(BigInteger x) {
    int len = (x.bitLength() + 7) / 8;
    byte[] b = x.toByteArray();
    Value[] r = new Value[len];
    for (int j = 0; j < len; j++) r[j] = IntValue.gen(b[b.length - 1 - j] & 255);
    return new TupleValue(r);
  }
  public static Value Norm(Value a) { return g(n(a)); }
  public static Value Big(Value a) { return g(BigInteger.valueOf(((IntValue) a).val)); }
  public static Value LtN(Value a, Value b) { return n(a).compareTo(n(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value AddN(Value a, Value b) { return g(n(a).add(n(b))); }
  public static Value SubN(Value a, Value b) { return g(n(a).subtract(n(b))); }
  public static Value MulN(Value a, Value b) { return g(n(a).multiply(n(b))); }
  public static Value DivModN(Value a, Value b) { BigInteger[] r = n(a).divideAndRemainder(n(b)); return new TupleValue(new Value[] {g(r[0]), g(r[1])}); }
  public static Value DivN(Value a, Value b) { return g(n(a).divide(n(b))); }
  public static Value ModN(Value a, Value b) { return g(n(a).mod(n(b))); }
  public static Value PowModN(Value a, Value e, Value m) { return g(n(a).modPow(n(e), n(m))); }
  public static Value GcdN(Value a, Value b) { return g(n(a).gcd(n(b))); }
  public static Value Pow2N(Value k) { return g(BigInteger.ONE.shiftLeft(((IntValue) k).val)); }
}
