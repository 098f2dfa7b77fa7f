import tlc2.value.impl.*;
import java.util.*;

/** TLC implementation of module Text. */
public class Text {
  static String str(Value v) { return ((StringValue) v).val.toString(); }
  static Value seq(List<String> l) { Value[] v = new Value[l.size()]; for (int i = 0; i < v.length; i++) v[i] = new StringValue(l.get(i)); return new TupleValue(v); }
  static String drop(String s, String a) { return a.isEmpty() ? s : s.replace(a, ""); }
  public static Value Bare(Value text, Value on, Value off) { return new StringValue(drop(drop(str(text), str(on)), str(off))); }
  public static Value Marks(Value text, Value on, Value off) {
    ArrayList<String> o = new ArrayList<>(); String t = str(text), a = str(on), b = str(off);
    for (int i = 0; i < t.length(); i++) { if (!a.isEmpty() && t.startsWith(a, i)) o.add("on"); else if (!b.isEmpty() && t.startsWith(b, i)) o.add("off"); }
    return seq(o);
  }
  public static Value Lines(Value text) {
    ArrayList<String> o = new ArrayList<>(); for (String l : str(text).split("\n")) if (!l.trim().isEmpty()) o.add(l); return seq(o);
  }
  public static Value Fields(Value line) {
    ArrayList<String> o = new ArrayList<>(); for (String f : str(line).trim().split("\\s+")) if (!f.isEmpty()) o.add(f); return seq(o);
  }
  public static Value Width(Value line) { return IntValue.gen(str(line).length()); }
  public static Value Ended(Value text) { String s = str(text); return s.isEmpty() || s.endsWith("\n") ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value IsNumeral(Value f) { return str(f).matches("[-+]?[0-9]+(\\.[0-9]*)?(e[-+]?[0-9]+)?") ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value Dec(Value f) {
    if (IsNumeral(f) == BoolValue.ValFalse) return Num.VAC;
    double d = Double.parseDouble(str(f)); return new UserValue(new Num.Ball(d, d == (float) d || d == Math.rint(d) && Math.abs(d) < 9e15 ? 0 : Math.ulp(d), false));
  }
}
