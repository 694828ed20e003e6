// Evaluation of the operators of spec/Num.tla for TLC: real numbers are decimal
// strings, computed with 40 significant digits (powers, exponentials and
// logarithms with about 15).  "nan" is produced by undefined operations and
// compares false with everything; "inf" and "-inf" are read as "nan" by
// arithmetic.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Num {
  private static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);

  private static BigDecimal get(Value v) {
    if (v instanceof IntValue) return BigDecimal.valueOf(((IntValue) v).val);
    String s = ((StringValue) v).val.toString();
    char c = s.charAt(s.length() - 1);
    if (c < '0' || c > '9') return null;
    return new BigDecimal(s);
  }
  private static final Value NAN = new StringValue("nan");
  private static Value put(BigDecimal d) {
    if (d == null) return NAN;
    if (d.signum() == 0) return new StringValue("0");
    return new StringValue(d.round(MC).toString());
  }
  private static Value put(double d) {
    return Double.isNaN(d) || Double.isInfinite(d) ? NAN : put(new BigDecimal(d));
  }
  private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RAdd(Value a, Value b) {
    BigDecimal x = get(a), y = get(b);
    return x == null || y == null ? NAN : put(x.add(y, MC));
  }
  public static Value RSub(Value a, Value b) {
    BigDecimal x = get(a), y = get(b);
    return x == null || y == null ? NAN : put(x.subtract(y, MC));
  }
  public static Value RMul(Value a, Value b) {
    BigDecimal x = get(a), y = get(b);
    return x == null || y == null ? NAN : put(x.multiply(y, MC));
  }
  public static Value RDiv(Value a, Value b) {
    BigDecimal x = get(a), y = get(b);
    return x == null || y == null || y.signum() == 0 ? NAN : put(x.divide(y, MC));
  }
  public static Value RSqrt(Value a) {
    BigDecimal x = get(a);
    return x == null || x.signum() < 0 ? NAN : put(x.sqrt(MC));
  }
  public static Value RPow(Value a, Value b) {
    BigDecimal x = get(a), y = get(b);
    if (x == null || y == null || x.signum() < 0) return NAN;
    return put(Math.pow(x.doubleValue(), y.doubleValue()));
  }
  public static Value RExp(Value a) {
    BigDecimal x = get(a);
    return x == null ? NAN : put(Math.exp(x.doubleValue()));
  }
  public static Value RLog(Value a) {
    BigDecimal x = get(a);
    return x == null || x.signum() <= 0 ? NAN : put(Math.log(x.doubleValue()));
  }
  public static Value RAtan2(Value a, Value b) {
    BigDecimal x = get(a), y = get(b);
    return x == null || y == null ? NAN : put(Math.atan2(x.doubleValue(), y.doubleValue()));
  }
  public static Value RCos(Value a) {
    BigDecimal x = get(a);
    return x == null ? NAN : put(Math.cos(x.doubleValue()));
  }
  public static Value RSin(Value a) {
    BigDecimal x = get(a);
    return x == null ? NAN : put(Math.sin(x.doubleValue()));
  }
  public static Value RNeg(Value a) {
    BigDecimal x = get(a);
    return x == null ? NAN : put(x.negate());
  }
  public static Value RAbs(Value a) {
    BigDecimal x = get(a);
    return x == null ? NAN : put(x.abs());
  }
  public static Value RMin(Value a, Value b) {
    BigDecimal x = get(a), y = get(b);
    return x == null || y == null ? NAN : put(x.min(y));
  }
  public static Value RMax(Value a, Value b) {
    BigDecimal x = get(a), y = get(b);
    return x == null || y == null ? NAN : put(x.max(y));
  }
  public static Value RFloor(Value a) {
    BigDecimal x = get(a);
    return x == null ? NAN : put(x.setScale(0, RoundingMode.FLOOR));
  }
  public static Value RLess(Value a, Value b) {
    BigDecimal x = get(a), y = get(b);
    return bool(x != null && y != null && x.compareTo(y) < 0);
  }
  public static Value RLeq(Value a, Value b) {
    BigDecimal x = get(a), y = get(b);
    return bool(x != null && y != null && x.compareTo(y) <= 0);
  }
  public static Value REq(Value a, Value b) {
    BigDecimal x = get(a), y = get(b);
    return bool(x != null && y != null && x.compareTo(y) == 0);
  }
  public static Value RSign(Value a) {
    BigDecimal x = get(a);
    return IntValue.gen(x == null ? 0 : x.signum());
  }
  public static Value RFinite(Value a) { return bool(get(a) != null); }
  public static Value RWithin(Value a, Value b, Value tol) {
    BigDecimal x = get(a), y = get(b), t = get(tol);
    return bool(x != null && y != null && t != null
                && x.subtract(y, MC).abs().compareTo(t.abs()) <= 0);
  }
  public static Value RSum(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    BigDecimal sum = BigDecimal.ZERO;
    for (int i = 0; i < t.elems.length; ++i) {
      BigDecimal x = get((Value) t.elems[i]);
      if (x == null) return NAN;
      sum = sum.add(x, MC);
    }
    return put(sum);
  }
}
