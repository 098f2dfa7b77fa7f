import tlc2.value.impl.*;
import java.util.concurrent.atomic.*;

/** TLC implementation of module Num: rigorous "ball" numbers [m-r, m+r] over doubles.
 *  A ball says: "a correct float32 evaluation of this formula, in any reasonable order of
 *  operations, lies in this interval".  m = NaN / +-inf with r = 0 means exactly that IEEE class,
 *  r = +inf means "unconstrained". */
public class Num {
  static final double U = Math.scalb(1.0, -22);      // per-operation relative slack (4 half-ulps)
  static final double TINY = Math.scalb(1.0, -126);
  static final double BIG = 0.8e38;                   // beyond: an intermediate may overflow
  static final double INF = Double.POSITIVE_INFINITY;
  static final AtomicLong nChecked = new AtomicLong(), nVac = new AtomicLong(), nExact = new AtomicLong();

  static final class Ball extends UserObj {
    final double m, r, s; final boolean raw;   // s: for an exact number, the sum of the magnitudes it was computed from
    Ball(double m, double r, boolean raw) { this(m, r, raw, Math.abs(m)); }
    Ball(double m, double r, boolean raw, double s) { this.m = m; this.r = r; this.raw = raw; this.s = s; }
    double mag() { return r == 0 ? s : Math.abs(m); }
    public int compareTo(Value v) {
      if (v instanceof UserValue && ((UserValue) v).userObj instanceof Ball) {
        Ball o = (Ball) ((UserValue) v).userObj; int c = Double.compare(m, o.m);
        return c != 0 ? c : Double.compare(r, o.r);
      }
      return 1;
    }
    public boolean member(Value v) { return false; }
    public boolean isFinite() { return false; }
    public StringBuffer toString(StringBuffer sb, int o, boolean s) {
      return sb.append('"').append(show(this)).append('"');
    }
    boolean vac() { return r == INF; }
    double lo() { return m - r; }
    double hi() { return m + r; }
  }
  static String show(Ball b) {
    if (b.r == INF) return "any";
    if (b.r == 0) return Double.toString(b.m).replaceAll("\\.0$", "");
    return b.m + "~" + String.format("%.2e", b.r);
  }
  static final Ball VACB = new Ball(0, INF, false);
  static final UserValue VAC = new UserValue(VACB);
  static final UserValue ZERO = new UserValue(new Ball(0, 0, false)), ONE = new UserValue(new Ball(1, 0, false));
  static Ball b(Value v) {
    if (v instanceof UserValue) return (Ball) ((UserValue) v).userObj;
    if (v instanceof IntValue) return new Ball(((IntValue) v).val, 0, false);
    if (v instanceof BoolValue) return new Ball(((BoolValue) v).val ? 1 : 0, 0, false);
    throw new RuntimeException("Num: not a number: " + v);
  }
  static UserValue raw(double m) { return new UserValue(new Ball(m, 0, true)); }
  static UserValue mk(double m, double r) {
    if (r == 0) { if (Double.isNaN(m) || Double.isInfinite(m)) return new UserValue(new Ball(m, 0, false)); }
    if (!(Math.abs(m) + r < BIG)) return VAC;          // also catches NaN
    return new UserValue(new Ball(m, r, false));
  }
  /** interval -> ball */
  static UserValue iv(double lo, double hi) { double m = 0.5 * (lo + hi); return mk(m, Math.max(hi - m, m - lo)); }
  static final double EXACT = 8388608.0;              // sums of integer magnitudes up to here are exact in any order
  static boolean isInt(double x) { return x == Math.rint(x) && Math.abs(x) <= 1048576.0; }
  static boolean fin(Ball a) { return !Double.isNaN(a.m) && !Double.isInfinite(a.m); }

  static Value tuple(Value v) {
    if (v instanceof TupleValue) return v;
    Value t = (Value) v.toTuple();
    if (t == null) throw new RuntimeException("Num.T: not a tuple: " + v);
    return t;
  }
  static Value[] elems(Value v) { return ((TupleValue) tuple(v)).elems; }

  // ---- construction
  public static Value T(Value f) { return tuple(f); }
  public static Value F(Value bits) { return bits instanceof UserValue ? bits : raw(Float.intBitsToFloat(((IntValue) bits).val)); }
  public static Value K(StringValue s) { return new UserValue(new Ball((double) Float.parseFloat(s.val.toString()), 0, false)); }
  public static Value KD(StringValue s) { double d = Double.parseDouble(s.val.toString()); return new UserValue(new Ball(d, U * Math.abs(d), false)); }
  public static Value Undet(Value dummy) { return VAC; }
  public static Value Widen(Value x, Value rel, Value abs) {
    Ball a = b(x), e = b(rel), d = b(abs);
    if (a.vac() || !fin(a)) return x;
    if (e.vac() || d.vac()) return VAC;
    return mk(a.m, a.r + (e.m + e.r) * Math.abs(a.m) + d.m + d.r);
  }
  public static Value Between(Value x, Value y) {
    Ball a = b(x), c = b(y);
    if (a.vac() || c.vac()) return VAC;
    return iv(Math.min(a.lo(), c.lo()), Math.max(a.hi(), c.hi()));
  }

  // ---- ring operations
  static UserValue add(Ball a, Ball c) {
    if (a.vac() || c.vac()) return VAC;
    double m = a.m + c.m;
    if (!fin(a) || !fin(c)) return mk(m, 0);
    if (a.r == 0 && c.r == 0) {
      if (a.s == 0) return c.s == 0 ? mk(m, 0) : new UserValue(new Ball(c.m, 0, false, c.s));
      if (c.s == 0) return new UserValue(new Ball(a.m, 0, false, a.s));
      double s = a.s + c.s;
      if (isInt(a.m) && isInt(c.m) && s <= EXACT) return new UserValue(new Ball(m, 0, false, s));
    }
    return mk(m, a.r + c.r + U * (a.mag() + c.mag()));
  }
  static Ball neg(Ball a) { return new Ball(-a.m, a.r, a.raw, a.s); }
  public static Value Add(Value x, Value y) { return add(b(x), b(y)); }
  public static Value Sub(Value x, Value y) { return add(b(x), neg(b(y))); }
  public static Value Opp(Value x) { return new UserValue(neg(b(x))); }
  static UserValue mul(Ball a, Ball c) {
    if (a.vac() || c.vac()) return VAC;
    double m = a.m * c.m;
    if (!fin(a) || !fin(c)) {
      if (Double.isNaN(a.m) || Double.isNaN(c.m)) return mk(Double.NaN, 0);
      if (!fin(a) && c.r > 0 && Math.abs(c.m) <= c.r) return VAC;
      if (!fin(c) && a.r > 0 && Math.abs(a.m) <= a.r) return VAC;
      return mk(m, 0);
    }
    double A = Math.abs(a.m), C = Math.abs(c.m);
    if (a.r == 0 && c.r == 0) {
      double s = a.s * c.s;
      if (s == 0) return mk(m, 0);
      if (A == 1 && a.s == 1 || C == 1 && c.s == 1) return new UserValue(new Ball(m, 0, false, s));
      if (isInt(a.m) && isInt(c.m) && s <= EXACT) return new UserValue(new Ball(m, 0, false, s));
    } else {
      if (a.r == 0 && (a.s == 0 || A == 1 && a.s == 1)) return mk(m, A * c.r);
      if (c.r == 0 && (c.s == 0 || C == 1 && c.s == 1)) return mk(m, C * a.r);
    }
    return mk(m, A * c.r + C * a.r + a.r * c.r + U * a.mag() * c.mag() + TINY);
  }
  public static Value Mul(Value x, Value y) { return mul(b(x), b(y)); }
  public static Value Sq(Value x) {
    Ball a = b(x); UserValue v = mul(a, a); Ball p = (Ball) v.userObj;
    if (p.vac() || !fin(p)) return v;
    if (p.lo() < 0) return iv(0, p.hi());
    return v;
  }
  static UserValue div(Ball a, Ball c) {
    if (a.vac() || c.vac()) return VAC;
    if (Double.isNaN(a.m) || Double.isNaN(c.m)) return mk(Double.NaN, 0);
    if (Double.isInfinite(c.m)) return Double.isInfinite(a.m) ? mk(Double.NaN, 0) : mk(0, 0);
    if (c.m == 0 && c.r == 0) {                          // exact zero divisor
      if (!c.raw) return VAC;                            // a computed zero divisor: not specified
      if (a.r != 0) return VAC;
      return mk(a.m / c.m, 0);
    }
    double C = Math.abs(c.m) - c.r;
    if (C <= 0) return VAC;
    if (Double.isInfinite(a.m)) return mk(a.m / c.m, 0);
    if (C < 2.4e-38) { if (a.m == 0 && a.r == 0 && C > 3e-39) return mk(0, 0); if (C < 3e-39) return VAC; }
    if (a.r == 0 && c.r == 0) {
      if (a.s == 0) return mk(a.m / c.m, 0);
      if (Math.abs(c.m) == 1 && c.s == 1) return new UserValue(new Ball(a.m * c.m, 0, false, a.s));
    }
    double m = a.m / c.m, A = Math.abs(a.m);
    double r = (a.r * Math.abs(c.m) + A * c.r) / (Math.abs(c.m) * C) + U * (a.mag() / Math.abs(c.m) + Math.abs(m) * c.mag() / Math.abs(c.m)) / 2 + TINY;
    if (1 / Math.abs(c.m) < 1.2e-37) r += A * TINY * 2;
    return mk(m, r);
  }
  public static Value Div(Value x, Value y) { return div(b(x), b(y)); }
  public static Value Abs(Value x) {
    Ball a = b(x);
    if (a.vac()) return VAC;
    if (Math.abs(a.m) >= a.r || !fin(a)) return mkExactSafe(Math.abs(a.m), a.r);
    return iv(0, Math.abs(a.m) + a.r);
  }
  static UserValue mkExactSafe(double m, double r) { return new UserValue(new Ball(m, r, false)); }
  public static Value Sqrt(Value x) {
    Ball a = b(x);
    if (a.vac()) return VAC;
    if (Double.isNaN(a.m)) return mk(Double.NaN, 0);
    if (a.m == INF) return mk(INF, 0);
    if (a.hi() < 0) return mk(Double.NaN, 0);
    if (a.lo() < 0) return VAC;
    if (a.m == 0 && a.r == 0) return ZERO;
    double l = Math.sqrt(a.lo()), h = Math.sqrt(a.hi());
    if (a.r == 0 && l == Math.rint(l) && l < 4096) return mk(l, 0);
    double m = 0.5 * (l + h);
    return mk(m, 0.5 * (h - l) + U * m + 4e-23);
  }
  public static Value Sum(Value s) {
    Value[] e = elems(s); UserValue acc = e[0] instanceof UserValue ? (UserValue) e[0] : new UserValue(b(e[0]));
    double tot = fin(b(e[0])) ? b(e[0]).mag() : 0;
    for (int i = 1; i < e.length; i++) { acc = add((Ball) acc.userObj, b(e[i])); if (fin(b(e[i]))) tot += b(e[i]).mag(); }
    return e.length > 2 && tot > 3.4e38 ? VAC : acc;      // another order of summation may overflow on the way
  }
  /** inner product of two tuples */
  public static Value Dot(Value s, Value t) {
    Value[] p = elems(s), q = elems(t); UserValue acc = null; double tot = 0;
    for (int i = 0; i < p.length; i++) {
      UserValue x = mul(b(p[i]), b(q[i]));
      acc = acc == null ? x : add((Ball) acc.userObj, (Ball) x.userObj);
      if (fin((Ball) x.userObj)) tot += ((Ball) x.userObj).mag();
    }
    return p.length > 2 && tot > 3.4e38 ? VAC : acc;
  }

  // ---- transcendental
  interface Fn { double f(double x); }
  static UserValue lip(Ball a, Fn f, double lip) {
    if (a.vac() || !fin(a)) return VAC;
    double m = f.f(a.m);
    if (a.r == 0 && a.m == 0) return mk(m, 0);
    return mk(m, a.r * lip + U);
  }
  public static Value Sin(Value x) { return lip(b(x), Math::sin, 1); }
  public static Value Cos(Value x) { return lip(b(x), Math::cos, 1); }
  public static Value Tan(Value x) {
    Ball a = b(x); if (a.vac() || !fin(a)) return VAC;
    double m = Math.tan(a.m), d = 1 + m * m, e = a.r * d;
    if (e * Math.abs(m) > 0.25) return VAC;
    return mk(m, 2 * e + U * Math.abs(m));
  }
  public static Value Acos(Value x) {
    Ball a = b(x); if (a.vac()) return VAC;
    if (a.lo() > 1 || a.hi() < -1) return mk(Double.NaN, 0);
    if (a.lo() < -1 || a.hi() > 1) return VAC;
    double h = Math.acos(a.lo()), l = Math.acos(a.hi());
    if (a.r == 0 && a.m == 1) return ZERO;
    return mk(0.5 * (l + h), 0.5 * (h - l) + U * 2);
  }
  public static Value Asin(Value x) {
    Ball a = b(x); if (a.vac()) return VAC;
    if (a.lo() > 1 || a.hi() < -1) return mk(Double.NaN, 0);
    if (a.lo() < -1 || a.hi() > 1) return VAC;
    double l = Math.asin(a.lo()), h = Math.asin(a.hi());
    return mk(0.5 * (l + h), 0.5 * (h - l) + U * 2);
  }
  public static Value Atan(Value x) {
    Ball a = b(x); if (a.vac()) return VAC;
    double l = Math.atan(a.lo()), h = Math.atan(a.hi());
    return mk(0.5 * (l + h), 0.5 * (h - l) + U * Math.abs(0.5 * (l + h)) + TINY);
  }
  public static Value Atan2(Value yy, Value xx) {
    Ball y = b(yy), x = b(xx); if (x.vac() || y.vac() || !fin(x) || !fin(y)) return VAC;
    if (x.r == 0 && y.r == 0) {
      if (x.m == 0 && y.m == 0) return VAC;
      double m = Math.atan2(y.m, x.m);
      if (y.m == 0 && x.m < 0) return VAC;
      return mk(m, U * Math.abs(m) + TINY);
    }
    if (x.lo() <= 0 && y.lo() <= 0 && y.hi() >= 0) return VAC;   // origin or branch cut
    double m = Math.atan2(y.m, x.m), d = 0;
    for (int i = 0; i < 4; i++) {
      double t = Math.atan2((i & 1) == 0 ? y.lo() : y.hi(), (i & 2) == 0 ? x.lo() : x.hi());
      d = Math.max(d, Math.abs(t - m));
    }
    return mk(m, d + U * Math.abs(m) + TINY);
  }
  /** sin(t h) / sin(h) for h in (0, pi): the same h in both, so an uncertain h matters little */
  public static Value SinRatio(Value tt, Value hh) {
    Ball t = b(tt), h = b(hh); if (t.vac() || h.vac() || !fin(t) || !fin(h)) return VAC;
    if (h.lo() <= 0 || h.hi() >= Math.PI) return VAC;
    double lo = INF, hi = -INF;
    for (int i = 0; i <= 8; i++) for (int j = -1; j <= 1; j++) {
      double a = h.lo() + (h.hi() - h.lo()) * i / 8, q = Math.sin((t.m + j * t.r) * a) / Math.sin(a);
      lo = Math.min(lo, q); hi = Math.max(hi, q);
    }
    double m = 0.5 * (lo + hi);
    return mk(m, 0.5 * (hi - lo) + 0.02 * (hi - lo) + U * (Math.abs(m) + Math.abs(t.m) + 1));
  }
  /** 2^x */
  public static Value Exp2(Value x) {
    Ball a = b(x); if (a.vac() || !fin(a)) return VAC;
    double m = Math.pow(2, a.m), h = Math.pow(2, a.hi());
    if (a.r == 0 && a.m == Math.rint(a.m) && Math.abs(a.m) < 20) return mk(m, 0);
    return mk(m, (h - m) + U * m + TINY);
  }
  // ---- discontinuous
  public static Value Floor(Value x) {
    Ball a = b(x); if (a.vac() || !fin(a)) return a.vac() ? VAC : x;
    double l = Math.floor(a.lo()), h = Math.floor(a.hi());
    if (l == h) return new UserValue(new Ball(l, 0, false));
    return iv(l, h);
  }
  public static Value ToInt(Value x) { Ball a = b(x); if (a.r != 0 || a.m != Math.rint(a.m) || Math.abs(a.m) > 2e9) throw new RuntimeException("ToInt: " + show(a)); return IntValue.gen((int) a.m); }
  public static Value Nearest(Value x) { Ball a = b(x); double q = Math.rint(a.m); if (a.vac() || !fin(a) || Math.abs(a.m - q) > a.r || a.r > 0.25) throw new RuntimeException("Nearest: " + show(a)); return IntValue.gen((int) q); }
  public static Value Fmod(Value x, Value y) {
    Ball a = b(x), c = b(y); if (a.vac() || c.vac() || a.r != 0 || c.r != 0) return VAC;
    return new UserValue(new Ball(a.m % c.m, 0, false));
  }
  /** value rounded to float32 (only for exact numbers): used where the code's float grid matters */
  public static Value Rnd32(Value x) {
    Ball a = b(x); if (a.vac()) return VAC;
    if (!fin(a)) return x;
    return new UserValue(new Ball((double) (float) a.m, 0, false));
  }
  public static Value FAdd(Value x, Value y) { return f32(b(x).m + b(y).m); }
  public static Value FSub(Value x, Value y) { return f32(b(x).m - b(y).m); }
  public static Value FMul(Value x, Value y) { return f32(b(x).m * b(y).m); }
  public static Value FDiv(Value x, Value y) { return f32(b(x).m / b(y).m); }
  static Value f32(double d) { return new UserValue(new Ball((double) (float) d, 0, false)); }
  public static Value Min(Value x, Value y) {
    Ball a = b(x), c = b(y);
    if (a.vac() || c.vac() || Double.isNaN(a.m) || Double.isNaN(c.m)) return VAC;
    if (a.r == 0 && c.r == 0) return new UserValue(a.m < c.m ? a : c);
    return iv(Math.min(a.lo(), c.lo()), Math.min(a.hi(), c.hi()));
  }
  public static Value Max(Value x, Value y) {
    Ball a = b(x), c = b(y);
    if (a.vac() || c.vac() || Double.isNaN(a.m) || Double.isNaN(c.m)) return VAC;
    if (a.r == 0 && c.r == 0) return new UserValue(a.m > c.m ? a : c);
    return iv(Math.max(a.lo(), c.lo()), Math.max(a.hi(), c.hi()));
  }
  public static Value MaxAll(Value s) { Value[] e = elems(s); Value r = e[0]; for (int i = 1; i < e.length; i++) r = Max(r, e[i]); return r; }
  public static Value MinAll(Value s) { Value[] e = elems(s); Value r = e[0]; for (int i = 1; i < e.length; i++) r = Min(r, e[i]); return r; }
  static final IntValue[] TRI = { IntValue.gen(0), IntValue.gen(1), IntValue.gen(2) };
  static int lt(Ball a, Ball c) {
    if (a.vac() || c.vac()) return 2;
    if (Double.isNaN(a.m) || Double.isNaN(c.m)) return 0;
    if (a.hi() < c.lo()) return 1;
    if (a.lo() >= c.hi()) return 0;
    return 2;
  }
  static int le(Ball a, Ball c) {
    if (a.vac() || c.vac()) return 2;
    if (Double.isNaN(a.m) || Double.isNaN(c.m)) return 0;
    if (a.hi() <= c.lo()) return 1;
    if (a.lo() > c.hi()) return 0;
    return 2;
  }
  public static Value Lt(Value x, Value y) { return TRI[lt(b(x), b(y))]; }
  public static Value Le(Value x, Value y) { return TRI[le(b(x), b(y))]; }
  public static Value Gt(Value x, Value y) { return TRI[lt(b(y), b(x))]; }
  public static Value Ge(Value x, Value y) { return TRI[le(b(y), b(x))]; }
  public static Value Eq(Value x, Value y) {
    Ball a = b(x), c = b(y);
    if (a.vac() || c.vac()) return TRI[2];
    if (Double.isNaN(a.m) || Double.isNaN(c.m)) return TRI[0];
    if (a.r == 0 && c.r == 0) return TRI[a.m == c.m ? 1 : 0];
    return TRI[a.hi() < c.lo() || c.hi() < a.lo() ? 0 : 2];
  }
  public static Value IsNan(Value x) { Ball a = b(x); return TRI[a.vac() ? 2 : Double.isNaN(a.m) ? 1 : 0]; }
  public static Value IsInf(Value x) { Ball a = b(x); return TRI[a.vac() ? 2 : Double.isInfinite(a.m) ? 1 : 0]; }
  static int tri(Value v) { return v instanceof BoolValue ? (((BoolValue) v).val ? 1 : 0) : ((IntValue) v).val; }
  public static Value Not3(Value v) { int t = tri(v); return TRI[t == 2 ? 2 : 1 - t]; }
  public static Value And3(Value v, Value w) { int a = tri(v), c = tri(w); return TRI[a == 0 || c == 0 ? 0 : a == 1 && c == 1 ? 1 : 2]; }
  public static Value Or3(Value v, Value w) { int a = tri(v), c = tri(w); return TRI[a == 1 || c == 1 ? 1 : a == 0 && c == 0 ? 0 : 2]; }
  public static Value All3(Value s) { int r = 1; for (Value v : elems(s)) { int t = tri(v); if (t == 0) return TRI[0]; if (t == 2) r = 2; } return TRI[r]; }
  public static Value Any3(Value s) { int r = 0; for (Value v : elems(s)) { int t = tri(v); if (t == 1) return TRI[1]; if (t == 2) r = 2; } return TRI[r]; }
  /** choice by a three-valued condition; unknown -> hull.  Lifted to tuples. */
  /** outcomes of the conditions decided while one contract is evaluated (coverage of the specification's cases) */
  static final ThreadLocal<byte[]> TAKEN = ThreadLocal.withInitial(() -> new byte[65]);
  static void taken(int t) { byte[] b = TAKEN.get(); if (b[64] < 64) b[b[64]++] = (byte) t; }
  public static Value Sel(Value c, Value x, Value y) {
    int t = tri(c); taken(t);
    if (t == 1) return x;
    if (t == 0) return y;
    return hull(x, y);
  }
  static Value hull(Value x, Value y) {
    if (x instanceof UserValue || x instanceof IntValue) {
      Ball a = b(x), c = b(y);
      if (a.vac() || c.vac()) return VAC;
      if (!fin(a) || !fin(c)) return (Double.compare(a.m, c.m) == 0 && a.r == c.r) ? x : VAC;
      if (a.m == c.m && a.r == 0 && c.r == 0) return x;
      return iv(Math.min(a.lo(), c.lo()), Math.max(a.hi(), c.hi()));
    }
    Value[] p = elems(x), q = elems(y), o = new Value[p.length];
    for (int i = 0; i < p.length; i++) o[i] = hull(p[i], q[i]);
    return new TupleValue(o);
  }
  // ---- conformance
  static boolean within(Ball a, float f) {
    nChecked.incrementAndGet();
    if (a.vac()) { nVac.incrementAndGet(); return true; }
    if (Double.isNaN(a.m)) { nExact.incrementAndGet(); return Float.isNaN(f); }
    if (a.r == 0) { nExact.incrementAndGet(); return (double) f == a.m; }
    return Math.abs((double) f - a.m) <= a.r;
  }
  public static Value Within(Value x, Value bits) { return within(b(x), Float.intBitsToFloat(((IntValue) bits).val)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value AllWithin(Value xs, Value ws) {
    Value[] p = elems(xs), q = elems(ws);
    for (int i = 0; i < p.length; i++) if (!within(b(p[i]), Float.intBitsToFloat(((IntValue) q[i]).val))) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  /** equal words (or tuples of words), counted */
  public static Value Same(Value x, Value y) {
    int k = x instanceof IntValue ? 1 : elems(x).length; nChecked.addAndGet(k); nExact.addAndGet(k);
    return x.equals(y) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  /** may x and y denote the same real number? (intervals meet) */
  public static Value Near(Value x, Value y) {
    nChecked.incrementAndGet();
    Ball a = b(x), c = b(y);
    if (a.vac() || c.vac()) { nVac.incrementAndGet(); return BoolValue.ValTrue; }
    if (Double.isNaN(a.m) || Double.isNaN(c.m)) return Double.isNaN(a.m) && Double.isNaN(c.m) ? BoolValue.ValTrue : BoolValue.ValFalse;
    if (a.m == c.m) return BoolValue.ValTrue;
    return Math.abs(a.m - c.m) <= a.r + c.r ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value Vacuous(Value x) { return b(x).vac() ? BoolValue.ValTrue : BoolValue.ValFalse; }
  // ---- booleans of three-valued results
  public static Value May(Value v) { return tri(v) != 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value Must(Value v) { return tri(v) == 1 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  // ---- 32-bit integer arithmetic beyond TLC's own (TLC's + - * trap on overflow)
  public static Value CDiv(Value x, Value y) { int a = ((IntValue) x).val, c = ((IntValue) y).val; return IntValue.gen(a / c); }
  public static Value CMod(Value x, Value y) { int a = ((IntValue) x).val, c = ((IntValue) y).val; return IntValue.gen(a % c); }
  public static Value Wide(Value x) { return raw(((IntValue) x).val); }
  public static Value Field(Value x, Value sh, Value w) { int a = ((IntValue) x).val; return IntValue.gen((a >>> ((IntValue) sh).val) & ((1 << ((IntValue) w).val) - 1)); }
}
