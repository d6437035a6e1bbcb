// TLC module override for spec/Reals.tla: IEEE-754 double arithmetic on numbers written as strings
// (Python repr / Java Double.toString), so that recorded floating point values reach the specification exactly.
import tlc2.output.MP;
import tlc2.tool.EvalException;
import tlc2.value.impl.*;
import util.ToolIO;

public class Reals {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      switch (s) {
        case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
        case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
        case "nan": case "NaN": return Double.NaN;
      }
      try { return Double.parseDouble(s); } catch (NumberFormatException e) {
        throw new RuntimeException("Reals: not a number: \"" + s + "\"");
      }
    }
    throw new RuntimeException("Reals: not a number: " + v);
  }
  static Value r(double x) { return new StringValue(Double.toString(x)); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static double[] ds(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Reals: not a sequence: " + v);
    double[] a = new double[t.elems.length];
    for (int i = 0; i < a.length; i++) a[i] = d(t.elems[i]);
    return a;
  }
  static Value rs(double[] a) {
    Value[] e = new Value[a.length];
    for (int i = 0; i < a.length; i++) e[i] = r(a[i]);
    return new TupleValue(e);
  }
  static boolean close(double x, double y, double rt, double at) {
    if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
    if (x == y) return true;
    if (Double.isInfinite(x) || Double.isInfinite(y)) return false;
    return Math.abs(x - y) <= at + rt * Math.max(Math.abs(x), Math.abs(y));
  }
  // scalars
  public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
  public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
  public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
  public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
  public static Value RNeg(Value a) { return r(-d(a)); }
  public static Value RSin(Value a) { return r(Math.sin(d(a))); }
  public static Value RCos(Value a) { return r(Math.cos(d(a))); }
  public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
  public static Value RExp(Value a) { return r(Math.exp(d(a))); }
  public static Value RLn(Value a) { return r(Math.log(d(a))); }
  public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value RPow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
  public static Value RMax(Value a, Value c) { return r(Math.max(d(a), d(c))); }
  public static Value RMin(Value a, Value c) { return r(Math.min(d(a), d(c))); }
  public static Value RFloor(Value a) { return r(Math.floor(d(a))); }
  public static Value RCeil(Value a) { return r(Math.ceil(d(a))); }
  public static Value RTrunc(Value a) { double x = d(a); return r(x < 0 ? Math.ceil(x) : Math.floor(x)); }
  public static Value RInt(Value a) {
    double x = d(a);
    if (x != Math.rint(x) || Math.abs(x) > 2e9) throw new RuntimeException("Reals: not an integer: " + x);
    return IntValue.gen((int) x);
  }
  // predicates
  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value REq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value RFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value RIsInt(Value a) { double x = d(a); return b(x == Math.rint(x) && Math.abs(x) <= 2e9); }
  public static Value RClose(Value a, Value c, Value rt, Value at) { return b(close(d(a), d(c), d(rt), d(at))); }
  // sequences
  public static Value RSum(Value s) { double[] a = ds(s); double t = 0, c = 0;
    for (double x : a) { if (Double.isInfinite(x) || Double.isNaN(x)) { t = 0; for (double y : a) t += y; return r(t); }
      double y = x - c, u = t + y; c = (u - t) - y; t = u; } return r(t); }
  public static Value RProd(Value s) { double t = 1; for (double x : ds(s)) t *= x; return r(t); }
  public static Value RDot(Value s, Value u) { double[] a = ds(s), e = ds(u); double t = 0;
    for (int i = 0; i < a.length; i++) t += a[i] * e[i]; return r(t); }
  public static Value RMaxSeq(Value s) { double t = Double.NEGATIVE_INFINITY;
    for (double x : ds(s)) { if (Double.isNaN(x)) return r(x); t = Math.max(t, x); } return r(t); }
  public static Value RMinSeq(Value s) { double t = Double.POSITIVE_INFINITY;
    for (double x : ds(s)) { if (Double.isNaN(x)) return r(x); t = Math.min(t, x); } return r(t); }
  public static Value RLogSumExp(Value s) { double[] a = ds(s); double m = Double.NEGATIVE_INFINITY;
    for (double x : a) { if (Double.isNaN(x)) return r(x); m = Math.max(m, x); }
    if (Double.isInfinite(m)) return r(m);
    double t = 0; for (double x : a) t += Math.exp(x - m); return r(m + Math.log(t)); }
  // the indices of s in decreasing order of value, ties in index order
  public static Value VDown(Value s) { double[] a = ds(s); Integer[] x = new Integer[a.length];
    for (int i = 0; i < x.length; i++) x[i] = i;
    java.util.Arrays.sort(x, (i, j) -> Double.compare(a[j], a[i]));
    Value[] e = new Value[x.length]; for (int i = 0; i < x.length; i++) e[i] = IntValue.gen(x[i] + 1);
    return new TupleValue(e); }
  public static Value VAdd(Value s, Value u) { double[] a = ds(s), e = ds(u); for (int i = 0; i < a.length; i++) a[i] += e[i]; return rs(a); }
  public static Value VSub(Value s, Value u) { double[] a = ds(s), e = ds(u); for (int i = 0; i < a.length; i++) a[i] -= e[i]; return rs(a); }
  public static Value VMul(Value s, Value u) { double[] a = ds(s), e = ds(u); for (int i = 0; i < a.length; i++) a[i] *= e[i]; return rs(a); }
  public static Value VDiv(Value s, Value u) { double[] a = ds(s), e = ds(u); for (int i = 0; i < a.length; i++) a[i] /= e[i]; return rs(a); }
  public static Value VMin(Value s, Value u) { double[] a = ds(s), e = ds(u); for (int i = 0; i < a.length; i++) a[i] = Math.min(a[i], e[i]); return rs(a); }
  public static Value VMax(Value s, Value u) { double[] a = ds(s), e = ds(u); for (int i = 0; i < a.length; i++) a[i] = Math.max(a[i], e[i]); return rs(a); }
  public static Value VScale(Value k, Value s) { double q = d(k); double[] a = ds(s); for (int i = 0; i < a.length; i++) a[i] *= q; return rs(a); }
  public static Value VExp(Value s) { double[] a = ds(s); for (int i = 0; i < a.length; i++) a[i] = Math.exp(a[i]); return rs(a); }
  public static Value VLn(Value s) { double[] a = ds(s); for (int i = 0; i < a.length; i++) a[i] = Math.log(a[i]); return rs(a); }
  public static Value VLe(Value s, Value u) { double[] a = ds(s), e = ds(u);
    for (int i = 0; i < a.length; i++) if (!(a[i] <= e[i])) return b(false); return b(true); }
  public static Value VEq(Value s, Value u) { double[] a = ds(s), e = ds(u); if (a.length != e.length) return b(false);
    for (int i = 0; i < a.length; i++) if (!(a[i] == e[i] || (Double.isNaN(a[i]) && Double.isNaN(e[i])))) return b(false); return b(true); }
  public static Value VFinite(Value s) { for (double x : ds(s)) if (Double.isNaN(x) || Double.isInfinite(x)) return b(false); return b(true); }
  public static Value VAllGe(Value s, Value k) { double q = d(k); for (double x : ds(s)) if (!(x >= q)) return b(false); return b(true); }
  public static Value VClose(Value s, Value u, Value rt, Value at) { double[] a = ds(s), e = ds(u); double R = d(rt), A = d(at);
    if (a.length != e.length) return b(false);
    for (int i = 0; i < a.length; i++) if (!close(a[i], e[i], R, A)) return b(false); return b(true); }
  // all pairs (s[i], u[i]) proportional: s[i]*sum(u) = u[i]*sum(s)
  public static Value VProp(Value s, Value u, Value rt) { double[] a = ds(s), e = ds(u); double R = d(rt);
    if (a.length != e.length) return b(false);
    double ma = 0, me = 0; for (double x : a) ma = Math.max(ma, Math.abs(x)); for (double x : e) me = Math.max(me, Math.abs(x));
    if (ma == 0 || me == 0) return b(ma == me);
    for (int i = 0; i < a.length; i++) if (!close(a[i] / ma, e[i] / me, R, R * 1e-6)) return b(false); return b(true); }
  // Gaussian log density through an explicit Cholesky factorisation: RNormLog(x, mean, cov) with cov a sequence of rows
  public static Value RNormLog(Value x, Value m, Value c) {
    double[] a = ds(x), mu = ds(m); int n = a.length; double[][] S = mat(c);
    double[][] L = new double[n][n];
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) {
      double t = S[i][j]; for (int k = 0; k < j; k++) t -= L[i][k] * L[j][k];
      if (i == j) { if (!(t > 0)) return r(Double.NaN); L[i][i] = Math.sqrt(t); } else L[i][j] = t / L[j][j]; }
    double q = 0, ld = 0; double[] y = new double[n];
    for (int i = 0; i < n; i++) { double t = a[i] - mu[i]; for (int k = 0; k < i; k++) t -= L[i][k] * y[k]; y[i] = t / L[i][i]; q += y[i] * y[i]; ld += Math.log(L[i][i]); }
    return r(-0.5 * q - ld - 0.5 * n * Math.log(2 * Math.PI));
  }
  static double[][] mat(Value c) { TupleValue t = (TupleValue) c.toTuple(); double[][] S = new double[t.elems.length][];
    for (int i = 0; i < S.length; i++) S[i] = ds(t.elems[i]); return S; }
  // standard normal cumulative distribution function (Marsaglia's series, exact to double precision for |x|<7)
  public static Value RPhi(Value v) { double x = d(v); if (x < -8) return r(0); if (x > 8) return r(1);
    double s = x, t = 0, q = x * x, i = 1, c = x; while (s != t) { t = s; i += 2; c *= q / i; s = t + c; }
    return r(.5 + s * Math.exp(-.5 * q - .91893853320467274178)); }
  // one verdict line per call; always TRUE
  public static Value Say(Value v) {
    StringBuilder sb = new StringBuilder("@@");
    TupleValue t = (TupleValue) v.toTuple();
    for (Value e : t.elems) { sb.append('\t'); sb.append(e instanceof StringValue ? ((StringValue) e).val.toString() : e.toString()); }
    String line = sb.toString().replace("\n", " ");
    synchronized (ToolIO.out) { ToolIO.out.println(line); }
    return BoolValue.ValTrue;
  }
}
