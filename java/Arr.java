// Java evaluation of the index arithmetic of spec/Arr.tla (checked against the
// TLA+ definitions by spec/MC_Arr.tla).
import tlc2.value.impl.*;

public class Arr {
  static int i(Value v) { return ((IntValue) v).val; }
  public static Value Unravel(Value vsh, Value vk) {
    Value[] sh = MLReal.seq(vsh);
    int k = i(vk) - 1;
    Value[] r = new Value[sh.length];
    for (int j = sh.length - 1; j >= 0; j--) { int s = i(sh[j]); r[j] = IntValue.gen(k % s + 1); k /= s; }
    return new TupleValue(r);
  }
  public static Value Ravel(Value vsh, Value vix) {
    Value[] sh = MLReal.seq(vsh), ix = MLReal.seq(vix);
    if (ix.length < sh.length) throw new RuntimeException("Arr: index " + vix + " for shape " + vsh);
    int k = 0;
    for (int j = 0; j < sh.length; j++) {
      int s = i(sh[j]), x = i(ix[j]);
      if (s == 1) x = 1;
      if (x < 1 || x > s) throw new RuntimeException("Arr: index " + vix + " out of shape " + vsh);
      k = k * s + x - 1;
    }
    return IntValue.gen(k + 1);
  }
  public static Value Size(Value vsh) {
    int p = 1;
    for (Value v : MLReal.seq(vsh)) if (p <= 1000000) p *= i(v);
    return IntValue.gen(p);
  }
}
