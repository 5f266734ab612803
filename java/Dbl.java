// TLC module override of spec/Dbl.tla: IEEE-754 doubles as the pair <<hi, lo>> of their 64 bits.
import tlc2.value.impl.*;
import util.UniqueString;
public class Dbl {
  static double d(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    return Double.longBitsToDouble(((long) ((IntValue) t.elems[0]).val << 32) | (((IntValue) t.elems[1]).val & 0xffffffffL));
  }
  static Value v(double x) {
    if (x != x) x = Double.NaN;            // one NaN
    long b = Double.doubleToLongBits(x);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int i(Value v) { return ((IntValue) v).val; }
  public static Value DAdd(Value a, Value c) { return v(d(a) + d(c)); }
  public static Value DSub(Value a, Value c) { return v(d(a) - d(c)); }
  public static Value DMul(Value a, Value c) { return v(d(a) * d(c)); }
  public static Value DDiv(Value a, Value c) { return v(d(a) / d(c)); }
  public static Value DNeg(Value a) { return v(-d(a)); }
  public static Value DAbs(Value a) { return v(Math.abs(d(a))); }
  public static Value DLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value DLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value DEq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value DMin(Value a, Value c) { return v(Math.min(d(a), d(c))); }
  public static Value DMax(Value a, Value c) { return v(Math.max(d(a), d(c))); }
  public static Value DInt(Value a) { return v(i(a)); }
  public static Value DRat(Value a, Value c) { return v((double) i(a) / (double) i(c)); }
  public static Value DDec(Value a, Value c) { return v(i(a) * Math.pow(10, i(c))); }
  public static Value DTrunc(Value a) { return IntValue.gen((int) d(a)); }
  public static Value DFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  public static Value DSqrt(Value a) { return v(Math.sqrt(d(a))); }
  public static Value DExp(Value a) { return v(Math.exp(d(a))); }
  public static Value DLog(Value a) { return v(Math.log(d(a))); }
  public static Value DLog2(Value a) { return v(Math.log(d(a)) / Math.log(2)); }
  public static Value DIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value DIsInf(Value a) { return b(Double.isInfinite(d(a))); }
  public static Value DFloat(Value a) { return v((double) (float) d(a)); }
  static boolean close(double x, double y, double tol) {
    if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
    if (x == y) return true;
    if (Double.isInfinite(x) || Double.isInfinite(y)) return false;
    return Math.abs(x - y) <= tol * Math.max(1, Math.max(Math.abs(x), Math.abs(y)));
  }
  public static Value DClose(Value a, Value c) { return b(close(d(a), d(c), 1e-9)); }
  public static Value DNear(Value a, Value c, Value k) { return b(close(d(a), d(c), Math.pow(10, -i(k)))); }
  // x is certainly smaller / possibly not larger, up to the rounding tolerance
  public static Value DLtSure(Value a, Value c) { return b(d(a) < d(c) && !close(d(a), d(c), 1e-9)); }
  public static Value DLePoss(Value a, Value c) { return b(d(a) <= d(c) || close(d(a), d(c), 1e-9)); }
  public static Value DSum(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    double r = 0;
    for (Value x : t.elems) r += d(x);
    return v(r);
  }
  public static Value DStr(Value a) { return new StringValue(Double.toString(d(a))); }
  // the sequence with its elements in a canonical order
  public static Value Canon(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    Value[] e = t.elems.clone();
    for (Value x : e) x.normalize();
    java.util.Arrays.sort(e, (a, c) -> a.compareTo(c));
    return new TupleValue(e);
  }
}
