import tlc2.value.impl.*;

/** TLC implementation of the memory operators of module Machine (same meaning, fewer objects). */
public class Machine {
  public static Value Words(Value mem, Value addr, Value n) {
    Value[] m = ((TupleValue) mem).elems; int a = ((IntValue) addr).val, c = ((IntValue) n).val;
    Value[] o = new Value[c]; System.arraycopy(m, a, o, 0, c); return new TupleValue(o);
  }
  public static Value Floats(Value mem, Value addr, Value n) {
    Value[] m = ((TupleValue) mem).elems; int a = ((IntValue) addr).val, c = ((IntValue) n).val;
    Value[] o = new Value[c]; for (int i = 0; i < c; i++) o[i] = Num.F(m[a + i]); return new TupleValue(o);
  }
  /** mem with the writes <<addr, word>> applied in order */
  public static Value Patch(Value mem, Value ws) {
    Value[] w = ((TupleValue) ws).elems; if (w.length == 0) return mem;
    Value[] m = ((TupleValue) mem).elems.clone();
    for (Value x : w) { Value[] p = ((TupleValue) x).elems; m[((IntValue) p[0]).val] = p[1]; }
    return new TupleValue(m);
  }
  /** words addr..addr+n-1 of Patch(mem, ws) */
  public static Value After(Value mem, Value ws, Value addr, Value n) {
    Value[] m = ((TupleValue) mem).elems; int a = ((IntValue) addr).val, c = ((IntValue) n).val;
    Value[] o = new Value[c]; System.arraycopy(m, a, o, 0, c);
    for (Value x : ((TupleValue) ws).elems) { Value[] p = ((TupleValue) x).elems; int d = ((IntValue) p[0]).val - a; if (d >= 0 && d < c) o[d] = p[1]; }
    return new TupleValue(o);
  }
  /** every written address lies in the extent of some memory clause <<kind, addr, vals|len>> */
  public static Value Framed(Value cs, Value ws) {
    Value[] w = ((TupleValue) ws).elems; Value[] c = Num.elems(cs);
    for (Value x : w) {
      int a = ((IntValue) ((TupleValue) x).elems[0]).val; boolean ok = false;
      for (int i = 0; i < c.length && !ok; i++) {
        Value[] k = ((TupleValue) c[i]).elems;
        String kind = ((StringValue) k[0]).val.toString();
        if (kind.charAt(0) == 'R') continue;
        int at = ((IntValue) k[1]).val, n = k[2] instanceof IntValue ? ((IntValue) k[2]).val : Num.elems(k[2]).length;
        ok = a >= at && a < at + n;
      }
      if (!ok) return BoolValue.ValFalse;
    }
    return BoolValue.ValTrue;
  }
}
