import tlc2.value.impl.*;

/**
 * TLC module override of spec/R64.tla: IEEE doubles as pairs <<hi, lo>> of the
 * two 32-bit halves of their bits. TLC's own integers are 32 bits wide, so the
 * numbers recorded from the implementation could not be compared otherwise.
 */
public class R64 {
  private static double d(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    long hi = ((IntValue) e[0]).val, lo = ((IntValue) e[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  private static Value r(double x) {
    long b = Double.doubleToLongBits(x);
    return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
  }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static Value[] s(Value v) { return ((TupleValue) v.toTuple()).elems; }

  public static Value RInt(Value a) { return r(((IntValue) a).val); }
  public static Value RRat(Value a, Value c) { return r((double) ((IntValue) a).val / ((IntValue) c).val); }
  public static Value RExp10(Value a) { return r(Math.pow(10, ((IntValue) a).val)); }
  public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
  public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
  public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
  public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
  public static Value RNeg(Value a) { return r(-d(a)); }
  public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
  public static Value RMax(Value a, Value c) { return r(Math.max(d(a), d(c))); }
  public static Value RMin(Value a, Value c) { return r(Math.min(d(a), d(c))); }
  public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value RSin(Value a) { return r(Math.sin(d(a))); }
  public static Value RCos(Value a) { return r(Math.cos(d(a))); }
  public static Value RAtan2(Value a, Value c) { return r(Math.atan2(d(a), d(c))); }
  public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value REq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value RFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value RFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  public static Value RDot(Value a, Value c) {
    Value[] x = s(a), y = s(c);
    if (x.length != y.length) throw new RuntimeException("RDot: lengths differ");
    double t = 0;
    for (int i = 0; i < x.length; i++) t += d(x[i]) * d(y[i]);
    return r(t);
  }
  public static Value RSum(Value a) {
    double t = 0;
    for (Value v : s(a)) t += d(v);
    return r(t);
  }
  public static Value RMaxAbs(Value a) {
    double t = 0;
    for (Value v : s(a)) { double x = Math.abs(d(v)); if (!(x <= t) && !Double.isNaN(t)) t = x; }
    return r(t);
  }
  public static Value RStr(Value a) { return new StringValue(Double.toString(d(a))); }
}
