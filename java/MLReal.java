// Java module override for spec/MLReal.tla: interprets the abstract real
// field of the specification with 34-digit decimal arithmetic.  A number is a
// TLC integer when it is integral and fits, and a decimal string otherwise.
import tlc2.value.impl.*;
import java.io.*;
import java.math.*;
import java.util.*;

public class MLReal {
  static final MathContext MC = new MathContext(34, RoundingMode.HALF_EVEN);
  static final MathContext MX = new MathContext(44, RoundingMode.HALF_EVEN);
  static final BigDecimal ZERO = BigDecimal.ZERO, ONE = BigDecimal.ONE, TEN = BigDecimal.TEN, TWO = new BigDecimal(2);
  static final Value IZ = IntValue.gen(0), IO = IntValue.gen(1);

  // "nan": outside the domain; absorbing
  static final Value NAN = new StringValue("nan");
  static final class NaNx extends RuntimeException {
    NaNx() { super("nan", null, false, false); }
  }
  static final NaNx NX = new NaNx();
  static boolean isNan(Value v) { return v instanceof StringValue && ((StringValue) v).getVal().toString().equals("nan"); }
  public static Value RIsNan(Value v) { return isNan(v) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static BigDecimal d(Value v) {
    if (isNan(v)) throw NX;
    if (v instanceof IntValue) return BigDecimal.valueOf(((IntValue) v).val);
    if (v instanceof StringValue) return new BigDecimal(((StringValue) v).getVal().toString());
    throw new RuntimeException("MLReal: not a number: " + v);
  }
  static Value r(BigDecimal b) {
    if (b.signum() == 0) return IZ;
    if (b.scale() <= 0 || b.stripTrailingZeros().scale() <= 0) {
      if (b.abs().compareTo(BigDecimal.valueOf(1000000000)) < 0) return IntValue.gen(b.intValue());
    }
    b = b.round(MC);
    if (b.abs().compareTo(TINY) < 0) return IZ;
    return new StringValue(b.toString());
  }
  static final BigDecimal TINY = new BigDecimal("1e-9000");
  static boolean isI(Value v, int k) { return v instanceof IntValue && ((IntValue) v).val == k; }

  static Value RAdd_(Value a, Value b) {
    if (a instanceof IntValue && b instanceof IntValue) {
      long s = (long) ((IntValue) a).val + ((IntValue) b).val;
      if (Math.abs(s) < 1000000000L) return IntValue.gen((int) s);
    }
    if (isI(a, 0)) return b;
    if (isI(b, 0)) return a;
    return r(d(a).add(d(b), MC));
  }
  static Value RSub_(Value a, Value b) {
    if (isI(b, 0)) return a;
    return r(d(a).subtract(d(b), MC));
  }
  static Value RMul_(Value a, Value b) {
    if (a instanceof IntValue && b instanceof IntValue) {
      long s = (long) ((IntValue) a).val * ((IntValue) b).val;
      if (Math.abs(s) < 1000000000L) return IntValue.gen((int) s);
    }
    if (isNan(a) || isNan(b)) return NAN;
    if (isI(a, 0) || isI(b, 0)) return IZ;
    if (isI(a, 1)) return b;
    if (isI(b, 1)) return a;
    return r(d(a).multiply(d(b), MC));
  }
  static Value RDiv_(Value a, Value b) { if (d(b).signum() == 0) throw NX; return r(d(a).divide(d(b), MC)); }
  static Value RNeg_(Value a) {
    if (a instanceof IntValue) return IntValue.gen(-((IntValue) a).val);
    return r(d(a).negate());
  }
  static Value RAbs_(Value a) { return r(d(a).abs()); }
  static Value RLt_(Value a, Value b) { return d(a).compareTo(d(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value RLe_(Value a, Value b) { return d(a).compareTo(d(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value REq_(Value a, Value b) { return d(a).compareTo(d(b)) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value RNear_(Value a, Value b, Value tol) {
    BigDecimal x = d(a), y = d(b);
    BigDecimal m = ONE.add(x.abs().max(y.abs()));
    return x.subtract(y).abs().compareTo(d(tol).multiply(m)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  public static Value RAdd(Value a, Value b) { try { return RAdd_(a, b); } catch (NaNx e) { return NAN; } }
  public static Value RSub(Value a, Value b) { try { return RSub_(a, b); } catch (NaNx e) { return NAN; } }
  public static Value RMul(Value a, Value b) { try { return RMul_(a, b); } catch (NaNx e) { return NAN; } }
  public static Value RDiv(Value a, Value b) { try { return RDiv_(a, b); } catch (NaNx e) { return NAN; } }
  public static Value RNeg(Value a) { try { return RNeg_(a); } catch (NaNx e) { return NAN; } }
  public static Value RAbs(Value a) { try { return RAbs_(a); } catch (NaNx e) { return NAN; } }
  public static Value RExp(Value a) { try { return RExp_(a); } catch (NaNx e) { return NAN; } }
  public static Value RLn(Value a) { try { return RLn_(a); } catch (NaNx e) { return NAN; } }
  public static Value RSqrt(Value a) { try { return RSqrt_(a); } catch (NaNx e) { return NAN; } }
  public static Value RAtan(Value a) { try { return RAtan_(a); } catch (NaNx e) { return NAN; } }
  public static Value RLgamma(Value a) { try { return RLgamma_(a); } catch (NaNx e) { return NAN; } }
  public static Value RPowI(Value a, Value k) { try { return RPowI_(a, k); } catch (NaNx e) { return NAN; } }
  public static Value RPow(Value a, Value b) { try { return RPow_(a, b); } catch (NaNx e) { return NAN; } }
  public static Value RSum(Value s) { try { return RSum_(s); } catch (NaNx e) { return NAN; } }
  public static Value RDot(Value a, Value b) { try { return RDot_(a, b); } catch (NaNx e) { return NAN; } }
  public static Value RLt(Value a, Value b) { try { return RLt_(a, b); } catch (NaNx e) { return BoolValue.ValFalse; } }
  public static Value RLe(Value a, Value b) { try { return RLe_(a, b); } catch (NaNx e) { return BoolValue.ValFalse; } }
  public static Value REq(Value a, Value b) { try { return REq_(a, b); } catch (NaNx e) { return BoolValue.ValFalse; } }
  public static Value RNear(Value a, Value b, Value tol) { try { return RNear_(a, b, tol); } catch (NaNx e) { return BoolValue.ValFalse; } }

  // ---- elementary functions ------------------------------------------------
  static BigDecimal exp(BigDecimal x) {
    double dx = x.doubleValue();
    if (dx > 20000) throw NX;
    if (dx < -20000) return ZERO;
    int k = (int) Math.max(0, Math.ceil(Math.log(Math.abs(dx) + 1e-300) / Math.log(2)) + 8);
    BigDecimal y = x.divide(TWO.pow(k), MX);
    BigDecimal s = ONE, t = ONE;
    for (int i = 1; i < 60; i++) {
      t = t.multiply(y, MX).divide(BigDecimal.valueOf(i), MX);
      s = s.add(t, MX);
      if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-46")) < 0) break;
    }
    for (int i = 0; i < k; i++) s = s.multiply(s, MX);
    return s;
  }
  static BigDecimal ln(BigDecimal x) {
    if (x.signum() <= 0) throw NX;
    int mag = x.precision() - x.scale();
    if (Math.abs(mag) > 290) return ln(x.scaleByPowerOfTen(-mag)).add(ln(TEN).multiply(BigDecimal.valueOf(mag), MX), MX);
    BigDecimal y = new BigDecimal(Math.log(x.doubleValue()), MX);
    for (int i = 0; i < 2; i++) {           // cubic Newton (Halley) on exp(y) = x
      BigDecimal e = exp(y);
      y = y.add(TWO.multiply(x.subtract(e), MX).divide(x.add(e), MX), MX);
    }
    return y;
  }
  static BigDecimal atan(BigDecimal x) {
    if (x.signum() < 0) return atan(x.negate()).negate();
    // argument halving: atan(x) = 2 atan(x / (1 + sqrt(1+x^2)))
    int k = 0;
    while (x.compareTo(new BigDecimal("0.05")) > 0) {
      x = x.divide(ONE.add(ONE.add(x.multiply(x, MX)).sqrt(MX)), MX);
      k++;
    }
    BigDecimal x2 = x.multiply(x, MX).negate(), t = x, s = x;
    for (int i = 3; i < 80; i += 2) {
      t = t.multiply(x2, MX);
      s = s.add(t.divide(BigDecimal.valueOf(i), MX), MX);
    }
    return s.multiply(TWO.pow(k), MX);
  }
  static final BigDecimal PI_ = new BigDecimal("3.14159265358979323846264338327950288419716939937510582");
  static BigDecimal lgamma(BigDecimal x) {   // x > 0, shifted Stirling
    BigDecimal shift = ZERO, p = ONE;
    while (x.compareTo(BigDecimal.valueOf(30)) < 0) { p = p.multiply(x, MX); x = x.add(ONE); }
    shift = ln(p);
    String[] num = {"1","-1","1","-1","1","-691","1","-3617","43867","-174611","77683","-236364091"};
    String[] den = {"12","360","1260","1680","1188","360360","156","122400","244188","125400","5796","1506960"};
    BigDecimal s = x.subtract(new BigDecimal("0.5")).multiply(ln(x), MX).subtract(x)
        .add(ln(PI_.multiply(TWO)).divide(TWO));
    BigDecimal ix = ONE.divide(x, MX), ix2 = ix.multiply(ix, MX), t = ix;
    for (int i = 0; i < num.length; i++) {
      s = s.add(t.multiply(new BigDecimal(num[i])).divide(new BigDecimal(den[i]), MX), MX);
      t = t.multiply(ix2, MX);
    }
    return s.subtract(shift, MX);
  }
  static Value RExp_(Value a) { return r(exp(d(a))); }
  static Value RLn_(Value a) { return isI(a, 1) ? IZ : r(ln(d(a))); }
  static Value RSqrt_(Value a) { return r(d(a).sqrt(MC)); }
  static Value RAtan_(Value a) { return r(atan(d(a))); }
  // rounded to k significant digits (for output)
  public static Value RRound(Value a, Value k) {
    if (a instanceof IntValue || isNan(a)) return a;
    BigDecimal b = d(a).round(new MathContext(((IntValue) k).val, RoundingMode.HALF_EVEN));
    return r(b);
  }
  static Value roundAll(Value v, int k) {
    if (v instanceof IntValue) return v;
    if (v instanceof StringValue) return RRound(v, IntValue.gen(k));
    Value[] xs = seq(v), ys = new Value[xs.length];
    for (int i = 0; i < xs.length; i++) ys[i] = roundAll(xs[i], k);
    return new TupleValue(ys);
  }
  // rounds every number of a (nested) sequence
  public static Value RRoundAll(Value v, Value k) { return roundAll(v, ((IntValue) k).val); }
  static boolean finite(Value v, BigDecimal bound) {
    if (v instanceof IntValue) return BigDecimal.valueOf(((IntValue) v).val).abs().compareTo(bound) <= 0;
    if (v instanceof StringValue) return !isNan(v) && d(v).abs().compareTo(bound) <= 0;
    for (Value x : seq(v)) if (!finite(x, bound)) return false;
    return true;
  }
  // every number of a (nested) sequence is defined and of absolute value <= bound
  public static Value RBounded(Value v, Value bound) { return finite(v, d(bound)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RPi() { return r(PI_); }
  static Value RLgamma_(Value a) { return r(lgamma(d(a))); }
  static BigDecimal powi(BigDecimal a, int k) {
    if (k < 0) return ONE.divide(powi(a, -k), MX);
    return a.pow(k, MX);
  }
  static Value RPowI_(Value a, Value k) { return r(powi(d(a), ((IntValue) k).val)); }
  static Value RPow_(Value a, Value b) {
    if (b instanceof IntValue) return RPowI(a, b);
    if (isI(a, 0)) return IZ;
    return r(exp(d(b).multiply(ln(d(a)), MX)));
  }
  public static Value RFact(Value n) {
    BigDecimal f = ONE;
    for (int i = 2; i <= ((IntValue) n).val; i++) f = f.multiply(BigDecimal.valueOf(i), MX);
    return r(f);
  }
  // floor of a non-huge real
  public static Value RFloor(Value a) { return IntValue.gen(d(a).setScale(0, RoundingMode.FLOOR).intValueExact()); }

  // ---- sequences -------------------------------------------------------------
  static Value[] seq(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    TupleValue t = (TupleValue) ((Value) v).toTuple();
    if (t == null) throw new RuntimeException("MLReal: not a sequence " + v);
    return t.elems;
  }
  static Value RSum_(Value s) {
    BigDecimal t = ZERO;
    for (Value v : seq(s)) if (!isI(v, 0)) t = t.add(d(v), MX);
    return r(t);
  }
  static Value RDot_(Value a, Value b) {
    BigDecimal t = ZERO;
    Value[] x = seq(a), y = seq(b);
    for (int i = 0; i < x.length; i++)
      if (!isI(x[i], 0) && !isI(y[i], 0)) t = t.add(d(x[i]).multiply(d(y[i]), MX), MX);
    return r(t);
  }
  // forces a (possibly lazily represented) sequence into a tuple
  public static Value Tup(Value s) { return new TupleValue(seq(s)); }

  // ---- pseudo-random choices ----------------------------------------------
  static int mix(long z) {
    z += 0x9E3779B97F4A7C15L;
    z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
    z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
    z ^= z >>> 31;
    return (int) (z & 0x3fffffffL);
  }
  // H(s, k): the k-th child of random state s, an integer in 0 .. 2^30-1
  public static Value H(Value s, Value k) {
    return IntValue.gen(mix(((long) ((IntValue) s).val << 32) ^ (((IntValue) k).val & 0xffffffffL)));
  }
  // decimal in [lo, hi] with three digits chosen by random state s (lo, hi in thousandths)
  public static Value RRnd(Value s, Value lo, Value hi) {
    int l = ((IntValue) lo).val, h = ((IntValue) hi).val;
    int x = l + (mix(((IntValue) s).val * 31L + 17) % (h - l + 1));
    return r(new BigDecimal(BigInteger.valueOf(x), 3));
  }

  // ---- JSON output -----------------------------------------------------------
  static final Map<String, PrintWriter> OUT = new HashMap<>();
  static void json(Value v, StringBuilder sb) {
    if (v instanceof IntValue) sb.append(((IntValue) v).val);
    else if (v instanceof BoolValue) sb.append(((BoolValue) v).val ? "true" : "false");
    else if (v instanceof StringValue) {
      sb.append('"').append(((StringValue) v).getVal().toString().replace("\\", "\\\\").replace("\"", "\\\"")).append('"');
    } else if (v instanceof RecordValue) {
      RecordValue rv = (RecordValue) v;
      sb.append('{');
      for (int i = 0; i < rv.names.length; i++) {
        if (i > 0) sb.append(',');
        sb.append('"').append(rv.names[i].toString()).append("\":");
        json(rv.values[i], sb);
      }
      sb.append('}');
    } else if (v instanceof SetEnumValue || v instanceof IntervalValue || v instanceof SubsetValue) {
      SetEnumValue e = (SetEnumValue) v.toSetEnum();
      e.normalize();
      sb.append('[');
      for (int i = 0; i < e.elems.size(); i++) { if (i > 0) sb.append(','); json(e.elems.elementAt(i), sb); }
      sb.append(']');
    } else {
      Value rec = v instanceof TupleValue ? null : (Value) v.toRcd();
      if (rec instanceof RecordValue && ((RecordValue) rec).names.length > 0) { json(rec, sb); return; }
      Value[] xs = seq(v);
      sb.append('[');
      for (int i = 0; i < xs.length; i++) { if (i > 0) sb.append(','); json(xs[i], sb); }
      sb.append(']');
    }
  }
  public static Value Emit(Value file, Value v) {
    StringBuilder sb = new StringBuilder();
    json(v, sb);
    String f = ((StringValue) file).getVal().toString();
    synchronized (OUT) {
      try {
        PrintWriter w = OUT.get(f);
        if (w == null) {
          w = new PrintWriter(new BufferedWriter(new FileWriter(f, true), 1 << 16));
          OUT.put(f, w);
          final PrintWriter fw = w;
          Runtime.getRuntime().addShutdownHook(new Thread(() -> { synchronized (OUT) { fw.flush(); } }));
        }
        w.println(sb);
      } catch (IOException e) { throw new RuntimeException(e); }
    }
    return BoolValue.ValTrue;
  }
}
