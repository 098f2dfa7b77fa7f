import tlc2.value.impl.*;
import util.UniqueString;
import java.io.*;
import java.nio.*;
import java.nio.channels.*;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;

/** TLC implementation of module TraceIO: recorded executions, decoded lazily. */
public class TraceIO {
  static IntBuffer buf; static String[] op, fam, f, variant; static int[] n, m; static int nTraces; static int[][] evOff; static int[] memOff;
  static int memWords; static StringValue[] opS, famS, fS; static IntValue[] nS, mS;
  static final ConcurrentLinkedQueue<String> reports = new ConcurrentLinkedQueue<>();
  static final AtomicLong nMis = new AtomicLong(), nEv = new AtomicLong(), nAlt = new AtomicLong();
  static AtomicLongArray opCount, opVac, opNum, opLoose, opFree; static AtomicIntegerArray opCase;
  static final UniqueString[] EVF = us("op", "fam", "n", "m", "f", "cc", "a", "pre", "alts", "id"), ALTF = us("w", "ret", "vs", "builds", "apis");
  static UniqueString[] us(String... s) { UniqueString[] u = new UniqueString[s.length]; for (int i = 0; i < s.length; i++) u[i] = UniqueString.uniqueStringOf(s[i]); return u; }
  static {
    try { load(System.getProperty("trace")); } catch (Exception x) { throw new RuntimeException(x); }
  }
  static void load(String path) throws Exception {
    byte[] all = Files.readAllBytes(Paths.get(path));
    ByteBuffer bb = ByteBuffer.wrap(all).order(ByteOrder.LITTLE_ENDIAN);
    int textLen = bb.getInt(0);
    String[] lines = new String(all, 4, textLen, "UTF-8").split("\n");
    int body = (4 + textLen + 3) / 4 * 4; bb.position(body); buf = bb.slice().order(ByteOrder.LITTLE_ENDIAN).asIntBuffer();
    ArrayList<String[]> ops = new ArrayList<>(); ArrayList<String> vs = new ArrayList<>();
    for (String l : lines) {
      String[] p = l.trim().split(" +");
      if (p[0].equals("op")) ops.add(p); else if (p[0].equals("variant")) vs.add(p[1]); else if (p[0].equals("mem")) memWords = Integer.parseInt(p[1]); 
    }
    variant = vs.toArray(new String[0]);
    int k = ops.size(); op = new String[k]; fam = new String[k]; f = new String[k]; n = new int[k]; m = new int[k];
    opS = new StringValue[k]; famS = new StringValue[k]; fS = new StringValue[k]; nS = new IntValue[k]; mS = new IntValue[k];
    for (int i = 0; i < k; i++) {
      String[] p = ops.get(i); op[i] = p[1]; fam[i] = p[2]; n[i] = Integer.parseInt(p[3]); m[i] = Integer.parseInt(p[4]); f[i] = p[5];
      opS[i] = new StringValue(op[i]); famS[i] = new StringValue(fam[i]); fS[i] = new StringValue(f[i]); nS[i] = IntValue.gen(n[i]); mS[i] = IntValue.gen(m[i]);
    }
    opCount = new AtomicLongArray(k); opVac = new AtomicLongArray(k);
    opNum = new AtomicLongArray(k); opLoose = new AtomicLongArray(k); opFree = new AtomicLongArray(k); opCase = new AtomicIntegerArray(k * 192);
    // body: per trace: nev, mem words, events (each prefixed by its length in words); ends with nev = -1
    ArrayList<int[]> offs = new ArrayList<>(); ArrayList<Integer> mo = new ArrayList<>(); int p = 0;
    while (true) {
      int nev = buf.get(p++); if (nev < 0) break;
      mo.add(p); p += memWords; int[] o = new int[nev];
      for (int i = 0; i < nev; i++) { o[i] = p + 1; p += 1 + buf.get(p); }
      offs.add(o);
    }
    nTraces = offs.size(); evOff = offs.toArray(new int[0][]); memOff = new int[nTraces]; for (int i = 0; i < nTraces; i++) memOff[i] = mo.get(i);
  }
  public static Value NTraces() { return IntValue.gen(nTraces); }
  public static Value TraceLen(Value t) { return IntValue.gen(evOff[((IntValue) t).val - 1].length); }
  public static Value InitMem(Value t) {
    int o = memOff[((IntValue) t).val - 1]; Value[] v = new Value[memWords];
    for (int i = 0; i < memWords; i++) v[i] = IntValue.gen(buf.get(o + i)); return new TupleValue(v);
  }
  static TupleValue pairs(int[] p) {
    int c = buf.get(p[0]++); Value[] w = new Value[c];
    for (int i = 0; i < c; i++) { w[i] = new TupleValue(new Value[] { IntValue.gen(buf.get(p[0])), IntValue.gen(buf.get(p[0] + 1)) }); p[0] += 2; }
    return new TupleValue(w);
  }
  public static Value Ev(Value t, Value l, Value mem) {
    int ti = ((IntValue) t).val - 1, li = ((IntValue) l).val - 1; int[] p = { evOff[ti][li] };
    int o = buf.get(p[0]++), cc = buf.get(p[0]++), na = buf.get(p[0]++);
    Value[] a = new Value[na]; for (int i = 0; i < na; i++) a[i] = IntValue.gen(buf.get(p[0]++));
    Value pre = Machine.Patch(mem, pairs(p));
    int nalt = buf.get(p[0]++); Value[] alts = new Value[nalt];
    for (int i = 0; i < nalt; i++) {
      int vs = buf.get(p[0]++), ret = buf.get(p[0]++); Value w = pairs(p);
      alts[i] = new RecordValue(ALTF, new Value[] { w, IntValue.gen(ret), IntValue.gen(vs), set(vs, true), set(vs, false) }, false);
    }
    nEv.incrementAndGet(); nAlt.addAndGet(nalt); opCount.incrementAndGet(o); Num.TAKEN.get()[64] = 0;
    return new RecordValue(EVF, new Value[] { opS[o], famS[o], nS[o], mS[o], fS[o], IntValue.gen(cc), new TupleValue(a), pre, new TupleValue(alts), IntValue.gen(o) }, false);
  }
  /** the builds ("sse2/i") or APIs ("i") among the variants of a mask */
  static final ConcurrentHashMap<Integer, Value> buildSets = new ConcurrentHashMap<>(), apiSets = new ConcurrentHashMap<>();
  static Value set(int mask, boolean build) {
    return (build ? buildSets : apiSets).computeIfAbsent(mask, k -> {
      TreeSet<String> s = new TreeSet<>();
      for (int i = 0; i < variant.length; i++) if ((k >> i & 1) != 0) { String b = variant[i].split("#")[0]; s.add(build ? b : b.substring(b.indexOf('/') + 1)); }
      Value[] v = new Value[s.size()]; int j = 0; for (String x : s) v[j++] = new StringValue(x);
      Value r = new SetEnumValue(v, false); r.normalize(); return r; });
  }
  static Value fld(Value r, String s) { return ((RecordValue) r).apply(new StringValue(s), 0); }
  static String names(int mask) { StringBuilder b = new StringBuilder(); for (int i = 0; i < variant.length; i++) if ((mask >> i & 1) != 0) { if (b.length() > 0) b.append(','); b.append(variant[i]); } return b.toString(); }
  public static Value Report(Value t, Value l, Value e, Value alt, Value cs, Value why) {
    nMis.incrementAndGet();
    if (reports.size() < 400) {
      StringBuilder b = new StringBuilder();
      b.append("MISMATCH trace=").append(t).append(" event=").append(l).append(" op=").append(fld(e, "op")).append(" cc=").append(fld(e, "cc"));
      b.append(" variants=").append(names(((IntValue) fld(alt, "vs")).val)).append(" why=").append(why).append('\n');
      Value[] pre = ((TupleValue) fld(e, "pre")).elems, a = ((TupleValue) fld(e, "a")).elems;
      for (int i = 0; i < a.length; i++) {
        int w = ((IntValue) a[i]).val; b.append("  arg").append(i + 1).append(" = ");
        if (w >= 0 && w < memWords && (w > 16 || true)) { b.append('@').append(w).append(" ["); int c = Math.min(16, memWords - w); for (int j = 0; j < c; j++) b.append(j > 0 ? " " : "").append(num(((IntValue) pre[w + j]).val)); b.append(" ...]"); }
        b.append(" | scalar ").append(num(w)).append('\n');
      }
      b.append("  returned ").append(num(((IntValue) fld(alt, "ret")).val)).append("  writes");
      for (Value x : ((TupleValue) fld(alt, "w")).elems) { Value[] q = ((TupleValue) x).elems; b.append(" @").append(q[0]).append('=').append(num(((IntValue) q[1]).val)); }
      for (Value x : ((TupleValue) fld(alt, "w")).elems) { Value[] q = ((TupleValue) x).elems; if (((IntValue) q[0]).val == 0 && (((IntValue) q[1]).val & 0xffff0000) == 0xdead0000) b.append("  (the call did not return normally: signal ").append(((IntValue) q[1]).val & 0xffff).append(")"); }
      b.append("\n  contract ").append(cs.toString()).append('\n');
      reports.add(b.toString());
    }
    return BoolValue.ValTrue;
  }
  static String num(int w) { return (w > -100000 && w < 100000) ? (w == 0 ? "0" : "int:" + w) : Float.toString(Float.intBitsToFloat(w)); }
  public static Value Finish(Value n) {
    try (PrintWriter w = new PrintWriter(System.getProperty("report"))) {
      w.println("mismatches " + nMis.get()); w.println("events " + nEv.get()); w.println("alternatives " + nAlt.get()); w.println("traces " + nTraces);
      w.println("numbers " + Num.nChecked.get()); w.println("undetermined " + Num.nVac.get()); w.println("exact " + Num.nExact.get());
      for (int i = 0; i < op.length; i++) {
        StringBuilder c = new StringBuilder();
        for (int j = 0; j < 64; j++) { int q = i * 192 + 3 * j, a = opCase.get(q), b = opCase.get(q + 1), d = opCase.get(q + 2); if (a + b + d == 0) break; c.append(' ').append(a).append('/').append(b).append('/').append(d); }
        w.println("opcount " + op[i] + " " + opCount.get(i) + " " + opVac.get(i) + " " + opNum.get(i) + " " + opLoose.get(i) + " " + opFree.get(i) + c);
      }
      for (String s : samples) w.println(s);
      for (String s : reports) w.print(s);
    } catch (IOException x) { throw new RuntimeException(x); }
    return nMis.get() == 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  /** bookkeeping: how many contract evaluations of this op were entirely undetermined */
  static final ConcurrentLinkedQueue<String> samples = new ConcurrentLinkedQueue<>();
  public static Value Note(Value e, Value cs) {
    if (samples.size() < 6 && (nEv.get() % 4001) < 3) {
      StringBuilder b = new StringBuilder(); b.append(fld(e, "op")).append(" args");
      for (Value x : ((TupleValue) fld(e, "a")).elems) { int q = ((IntValue) x).val; b.append(' ').append(q >= 0 && q < memWords ? "@" + q : num(q)); }
      for (Value al : ((TupleValue) fld(e, "alts")).elems) { b.append(" | ").append(names(((IntValue) fld(al, "vs")).val)).append(" returned ").append(num(((IntValue) fld(al, "ret")).val)).append(" wrote");
        for (Value x : ((TupleValue) fld(al, "w")).elems) { Value[] q = ((TupleValue) x).elems; b.append(" @").append(q[0]).append('=').append(num(((IntValue) q[1]).val)); } }
      String c = cs.toString(); b.append(" | contract ").append(c.length() > 500 ? c.substring(0, 500) + "..." : c);
      samples.add("SAMPLE " + b.toString().replace('\n', ' '));
    }
    boolean all = true, any = false; int id = ((IntValue) fld(e, "id")).val;
    for (Value c : Num.elems(cs)) {
      Value[] k = ((TupleValue) c).elems; String kind = ((StringValue) k[0]).val.toString();
      if (kind.equals("W")) { any = true; if (!tally(id, Num.elems(k[2]))) all = false; }
      else if (kind.equals("R") || kind.equals("RN")) { any = true; if (!tally(id, new Value[] { k[1] })) all = false; }
      else if (kind.equals("RB")) { any = true; Num.taken(Num.tri(k[1])); if (!(k[1] instanceof IntValue) || ((IntValue) k[1]).val != 2) all = false; }
      else all = false;
    }
    byte[] t = Num.TAKEN.get(); for (int i = 0; i < t[64]; i++) opCase.incrementAndGet(id * 192 + i * 3 + t[i]);
    if (any && all) opVac.incrementAndGet(id);
    return BoolValue.ValTrue;
  }
  /** count undetermined numbers, and those known to less than a thousandth of the clause's magnitude; true if all are undetermined */
  static boolean tally(int id, Value[] xs) {
    double big = 0; int free = 0, loose = 0;
    for (Value x : xs) { Num.Ball b = Num.b(x); if (!b.vac() && !Double.isNaN(b.m) && !Double.isInfinite(b.m)) big = Math.max(big, Math.abs(b.m)); }
    for (Value x : xs) { Num.Ball b = Num.b(x); if (b.vac()) free++; else if (b.r > 1e-3 * big) loose++; }
    opNum.addAndGet(id, xs.length); opLoose.addAndGet(id, loose); opFree.addAndGet(id, free);
    return free == xs.length;
  }
}
