// TLC evaluation of the operators that spec/RealNum.tla declares over the reals.
// A real is carried as the shortest decimal string of an IEEE double; an Int is accepted wherever a real is.
import tlc2.value.impl.*;
import util.UniqueString;

public class RealNum {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof RV) return ((RV) v).val;
    if (v instanceof StringValue) {
      try { return Double.parseDouble(((StringValue) v).val.toString()); }
      catch (NumberFormatException e) { return Double.NaN; }   // "None" and the like
    }
    throw new RuntimeException("RealNum: not a number: " + v);
  }
  // a computed real: behaves as the string it prints as, without interning every intermediate result
  static final class RV extends Value {
    final double val;
    RV(double x) { val = x; }
    StringValue str() { return new StringValue(UniqueString.uniqueStringOf(Double.toString(val))); }
    public byte getKind() { return STRINGVALUE; }
    public int compareTo(Object o) { return o instanceof RV ? Double.compare(val, ((RV) o).val) : str().compareTo(o); }
    public boolean equals(Object o) { return o instanceof RV ? Double.compare(val, ((RV) o).val) == 0 : str().equals(o); }
    public boolean member(Value e) { throw new RuntimeException("RealNum: member of a real"); }
    public boolean isFinite() { throw new RuntimeException("RealNum: isFinite of a real"); }
    public Value takeExcept(ValueExcept e) { if (e.idx < e.path.length) throw new RuntimeException("RealNum: EXCEPT on a real"); return e.value; }
    public Value takeExcept(ValueExcept[] e) { throw new RuntimeException("RealNum: EXCEPT on a real"); }
    public int size() { throw new RuntimeException("RealNum: size of a real"); }
    public boolean mutates() { return false; }
    public boolean isNormalized() { return true; }
    public Value normalize() { return this; }
    public boolean isDefined() { return true; }
    public tlc2.value.IValue deepCopy() { return this; }
    public boolean assignable(Value v) { return equals(v); }
    public void write(tlc2.value.IValueOutputStream o) throws java.io.IOException { str().write(o); }
    public long fingerPrint(long fp) {
      long b = Double.doubleToLongBits(val);
      return tlc2.util.FP64.Extend(tlc2.util.FP64.Extend(tlc2.util.FP64.Extend(fp, STRINGVALUE), (int) b), (int) (b >>> 32));
    }
    public tlc2.value.IValue permute(tlc2.value.IMVPerm p) { return this; }
    public StringBuffer toString(StringBuffer sb, int off, boolean sw) { return sb.append('"').append(val).append('"'); }
  }
  static Value s(double x) { return new RV(x); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("RealNum: not a sequence: " + v);
    return t.elems;
  }
  public static Value RAdd(Value x, Value y) { return s(d(x) + d(y)); }
  public static Value RSub(Value x, Value y) { return s(d(x) - d(y)); }
  public static Value RMul(Value x, Value y) { return s(d(x) * d(y)); }
  public static Value RDiv(Value x, Value y) { return s(d(x) / d(y)); }
  public static Value RPow(Value x, Value y) { return s(Math.pow(d(x), d(y))); }
  public static Value RNeg(Value x) { return s(-d(x)); }
  public static Value RAbs(Value x) { return s(Math.abs(d(x))); }
  public static Value RSqrt(Value x) { return s(Math.sqrt(d(x))); }
  public static Value RLn(Value x) { return s(Math.log(d(x))); }
  public static Value RLog10(Value x) { return s(Math.log10(d(x))); }
  public static Value RExp(Value x) { return s(Math.exp(d(x))); }
  public static Value RSin(Value x) { return s(Math.sin(d(x))); }
  public static Value RCos(Value x) { return s(Math.cos(d(x))); }
  public static Value RAsin(Value x) { return s(Math.asin(d(x))); }
  public static Value RAcos(Value x) { return s(Math.acos(d(x))); }
  public static Value RAtan2(Value y, Value x) { return s(Math.atan2(d(y), d(x))); }
  public static Value RFloor(Value x) { return IntValue.gen((int) Math.floor(d(x))); }
  public static Value RReal(Value x) { return s(d(x)); }
  public static Value RLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value RLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value REq(Value x, Value y) { return b(d(x) == d(y)); }
  public static Value RFinite(Value x) { double v = d(x); return b(!Double.isNaN(v) && !Double.isInfinite(v)); }
  public static Value RMin(Value x, Value y) { return s(Math.min(d(x), d(y))); }
  public static Value RMax(Value x, Value y) { return s(Math.max(d(x), d(y))); }
  public static Value RNear(Value x, Value y, Value rt, Value at) {
    double p = d(x), q = d(y);
    if (Double.isNaN(p) || Double.isNaN(q)) return b(Double.isNaN(p) && Double.isNaN(q));
    if (p == q) return BoolValue.ValTrue;
    if (Double.isInfinite(p) || Double.isInfinite(q)) return BoolValue.ValFalse;
    return b(Math.abs(p - q) <= d(at) + d(rt) * Math.max(Math.abs(p), Math.abs(q)));
  }
  public static Value RSum(Value v) {
    double t = 0, c = 0;
    for (Value e : seq(v)) { double y = d(e) - c, u = t + y; c = (u - t) - y; t = u; }
    return s(t);
  }
  public static Value RSeqMax(Value v) { double t = Double.NEGATIVE_INFINITY; for (Value e : seq(v)) t = Math.max(t, d(e)); return s(t); }
  public static Value RSeqMin(Value v) { double t = Double.POSITIVE_INFINITY; for (Value e : seq(v)) t = Math.min(t, d(e)); return s(t); }
  // stable ascending argsort, 1-based
  public static Value RArgSort(Value v) {
    Value[] e = seq(v); final double[] k = new double[e.length]; Integer[] ix = new Integer[e.length];
    for (int i = 0; i < e.length; i++) { k[i] = d(e[i]); ix[i] = i; }
    java.util.Arrays.sort(ix, (p, q) -> Double.compare(k[p], k[q]));
    Value[] r = new Value[e.length];
    for (int i = 0; i < e.length; i++) r[i] = IntValue.gen(ix[i] + 1);
    return new TupleValue(r);
  }
}
