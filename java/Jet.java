// Java evaluation of the jet ring operations of spec/Jet.tla (checked against
// the TLA+ definitions by spec/MC_Jet.tla).
import tlc2.value.impl.*;
import java.math.*;

public class Jet {
  static final MathContext MC = MLReal.MX;
  static int nvars(int len) { int p = 0; while (1 + p + p * (p + 1) / 2 < len) p++; return p; }
  static BigDecimal[] dec(Value[] a) {
    BigDecimal[] x = new BigDecimal[a.length];
    for (int i = 0; i < a.length; i++) x[i] = MLReal.isI(a[i], 0) ? null : MLReal.d(a[i]);
    return x;
  }
  static final Value JNAN = new TupleValue(new Value[]{MLReal.NAN});
  static boolean isNan(Value[] a) { return MLReal.isNan(a[0]); }
  static Value enc(BigDecimal[] x) {
    Value[] v = new Value[x.length];
    for (int i = 0; i < x.length; i++) v[i] = x[i] == null ? MLReal.IZ : MLReal.r(x[i]);
    return new TupleValue(v);
  }
  static BigDecimal add(BigDecimal a, BigDecimal b) { return a == null ? b : b == null ? a : a.add(b, MC); }
  static BigDecimal mul(BigDecimal a, BigDecimal b) { return a == null || b == null ? null : a.multiply(b, MC); }
  static BigDecimal get(BigDecimal[] a, int k) { return k < a.length ? a[k] : null; }

  public static Value JAdd(Value va, Value vb) {
    Value[] a = MLReal.seq(va), b = MLReal.seq(vb);
    if (isNan(a) || isNan(b)) return JNAN;
    int n = Math.max(a.length, b.length);
    Value[] r = new Value[n];
    for (int k = 0; k < n; k++)
      r[k] = k >= a.length ? b[k] : k >= b.length ? a[k] : MLReal.RAdd(a[k], b[k]);
    return new TupleValue(r);
  }
  public static Value JScale(Value c, Value va) {
    Value[] a = MLReal.seq(va);
    if (isNan(a)) return JNAN;
    Value[] r = new Value[a.length];
    for (int k = 0; k < a.length; k++) r[k] = MLReal.RMul(c, a[k]);
    return new TupleValue(r);
  }
  static BigDecimal[] mulj(BigDecimal[] a, BigDecimal[] b) {
    int n = Math.max(a.length, b.length), p = nvars(n);
    BigDecimal[] r = new BigDecimal[n];
    r[0] = mul(a[0], b[0]);
    for (int k = 1; k < n; k++) r[k] = add(mul(a[0], get(b, k)), mul(b[0], get(a, k)));
    if (a.length > 1 && b.length > 1) {
      int k = 1 + p;
      for (int i = 1; i <= p; i++)
        for (int j = 1; j <= i; j++, k++)
          r[k] = add(r[k], add(mul(a[i], b[j]), mul(a[j], b[i])));
    }
    return r;
  }
  public static Value JMul(Value va, Value vb) {
    Value[] a = MLReal.seq(va), b = MLReal.seq(vb);
    if (isNan(a) || isNan(b)) return JNAN;
    return enc(mulj(dec(a), dec(b)));
  }
  static BigDecimal[] unj(BigDecimal f0, BigDecimal f1, BigDecimal f2, BigDecimal[] a) {
    int n = a.length, p = nvars(n);
    BigDecimal[] r = new BigDecimal[n];
    r[0] = f0;
    for (int k = 1; k < n; k++) r[k] = mul(f1, a[k]);
    int k = 1 + p;
    if (n > 1)
      for (int i = 1; i <= p; i++)
        for (int j = 1; j <= i; j++, k++)
          r[k] = add(r[k], mul(f2, mul(a[i], a[j])));
    return r;
  }
  public static Value JUn(Value f0, Value f1, Value f2, Value va) {
    if (MLReal.isNan(f0) || MLReal.isNan(f1) || MLReal.isNan(f2) || isNan(MLReal.seq(va))) return JNAN;
    return enc(unj(MLReal.d(f0), MLReal.d(f1), MLReal.d(f2), dec(MLReal.seq(va))));
  }
  public static Value JSum(Value s) {
    Value[] xs = MLReal.seq(s);
    BigDecimal[] t = {null};
    for (Value x : xs) {
      if (isNan(MLReal.seq(x))) return JNAN;
      BigDecimal[] y = dec(MLReal.seq(x));
      if (y.length > t.length) { BigDecimal[] u = new BigDecimal[y.length]; System.arraycopy(t, 0, u, 0, t.length); t = u; }
      for (int k = 0; k < y.length; k++) t[k] = add(t[k], y[k]);
    }
    return enc(t);
  }
}
