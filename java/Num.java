// Java definitions of the operators of module Num (see spec/Num.tla).
//
// A number is an Int, a decimal string ("0.1": one tenth; "0.1d": the binary64
// number nearest to it, as found in traces), or the result of another
// operator.  Everything is computed in double-double arithmetic (about 31
// digits); values which are not finite are NaN: every comparison with them is
// FALSE.
import java.math.BigDecimal;
import java.math.MathContext;
import java.util.HashMap;
import tlc2.value.impl.*;
import util.UniqueString;

public class Num {
  // ---- double-double numbers ------------------------------------------------
  static final class DD {
    final double h, l;
    DD(double h, double l) { this.h = h; this.l = l; }
    boolean nan() { return !Double.isFinite(h); }
  }
  static final DD NAN = new DD(Double.NaN, 0), ZERO = new DD(0, 0), ONE = new DD(1, 0);
  static DD fast(double a, double b) { // |a|>=|b|
    double s = a + b;
    if (!Double.isFinite(s)) return NAN;
    return new DD(s, b - (s - a));
  }
  static DD of(double a) { return Double.isFinite(a) ? new DD(a, 0) : NAN; }
  static DD add(DD a, DD b) {
    double s = a.h + b.h, v = s - a.h, e = (a.h - (s - v)) + (b.h - v);
    double t = a.l + b.l, w = t - a.l, f = (a.l - (t - w)) + (b.l - w);
    e += t;
    double s2 = s + e;
    e = e - (s2 - s);
    e += f;
    return fast(s2, e);
  }
  static DD neg(DD a) { return new DD(-a.h, -a.l); }
  static DD sub(DD a, DD b) { return add(a, neg(b)); }
  static DD mul(DD a, DD b) {
    double p = a.h * b.h;
    if (!Double.isFinite(p)) return NAN;
    double e = Math.fma(a.h, b.h, -p);
    e += a.h * b.l + a.l * b.h;
    return fast(p, e);
  }
  static DD div(DD a, DD b) {
    if (b.h == 0 || a.nan() || b.nan()) return NAN;
    double q1 = a.h / b.h;
    if (!Double.isFinite(q1)) return NAN;
    DD r = sub(a, mul(b, of(q1)));
    double q2 = r.h / b.h;
    r = sub(r, mul(b, of(q2)));
    double q3 = r.h / b.h;
    return add(fast(q1, q2), of(q3));
  }
  static DD sqrt(DD a) {
    if (a.nan() || a.h < 0) return NAN;
    if (a.h == 0) return ZERO;
    double x = Math.sqrt(a.h);
    DD r = of(x);
    for (int k = 0; k < 2; k++) r = mul(add(r, div(a, r)), of(0.5));
    return r;
  }
  static DD abs(DD a) { return a.h < 0 || (a.h == 0 && a.l < 0) ? neg(a) : a; }
  static int cmp(DD a, DD b) { // neither is NaN
    if (a.h != b.h) return a.h < b.h ? -1 : 1;
    return a.l < b.l ? -1 : a.l > b.l ? 1 : 0;
  }
  static DD max(DD a, DD b) { return a.nan() || b.nan() ? NAN : cmp(a, b) < 0 ? b : a; }
  static DD of(BigDecimal b) {
    double h = b.doubleValue();
    if (!Double.isFinite(h)) return NAN;
    return fast(h, b.subtract(new BigDecimal(h)).doubleValue());
  }
  static BigDecimal big(DD a) { return new BigDecimal(a.h).add(new BigDecimal(a.l)); }
  static String str(DD a) {
    return a.nan() ? "nan" : big(a).round(new MathContext(33)).stripTrailingZeros().toString();
  }

  // ---- values -----------------------------------------------------------------
  static final class R extends UserObj {
    final DD v;
    R(DD x) { v = x; }
    public int compareTo(Value o) {
      DD w = num(o);
      if (v.nan() || w.nan()) return v.nan() && w.nan() ? 0 : 1;
      return cmp(v, w);
    }
    public boolean member(Value o) { return false; }
    public boolean isFinite() { return true; }
    public StringBuffer toString(StringBuffer sb, int i, boolean b) {
      return sb.append('"').append(v.nan() ? "nan" : big(v).round(new MathContext(22)).toString()).append('"');
    }
  }
  static final HashMap<UniqueString, DD> cache = new HashMap<>();
  static DD parse(String s) {
    s = s.trim();
    String l = s.toLowerCase();
    if (l.contains("nan") || l.contains("inf")) return NAN;
    if (l.endsWith("d")) return of(Double.parseDouble(s));
    return of(new BigDecimal(s));
  }
  static DD num(Value x) {
    if (x instanceof UserValue) return ((R) ((UserValue) x).userObj).v;
    if (x instanceof IntValue) return new DD(((IntValue) x).val, 0);
    if (x instanceof StringValue) {
      UniqueString u = ((StringValue) x).val;
      synchronized (cache) {
        DD b = cache.get(u);
        if (b == null) {
          b = parse(u.toString());
          if (cache.size() > 1000000) cache.clear();
          cache.put(u, b);
        }
        return b;
      }
    }
    throw new RuntimeException("Num: not a number: " + x);
  }
  static Value mk(DD b) { return new UserValue(new R(b)); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] vec(Value x) {
    if (x instanceof TupleValue) return ((TupleValue) x).elems;
    Value t = x.toTuple();
    if (t == null) throw new RuntimeException("Num: not a vector: " + x);
    return ((TupleValue) t).elems;
  }
  static DD[] nums(Value x) {
    Value[] e = vec(x);
    DD[] r = new DD[e.length];
    for (int i = 0; i < e.length; i++) r[i] = num(e[i]);
    return r;
  }
  static DD[] nums(Value x, int n, String op) {
    DD[] r = nums(x);
    if (r.length != n) throw new RuntimeException("Num: " + op + ": sizes " + r.length + " and " + n);
    return r;
  }
  static Value mkvec(DD[] b) {
    Value[] e = new Value[b.length];
    for (int i = 0; i < e.length; i++) e[i] = mk(b[i]);
    return new TupleValue(e);
  }

  // ---- scalars ------------------------------------------------------------------
  public static Value D(Value a) { return mk(num(a)); }
  public static Value Add(Value a, Value b) { return mk(add(num(a), num(b))); }
  public static Value Sub(Value a, Value b) { return mk(sub(num(a), num(b))); }
  public static Value Mul(Value a, Value b) { return mk(mul(num(a), num(b))); }
  public static Value Div(Value a, Value b) { return mk(div(num(a), num(b))); }
  public static Value Opp(Value a) { return mk(neg(num(a))); }
  public static Value Abs(Value a) { return mk(abs(num(a))); }
  public static Value Sqrt(Value a) { return mk(sqrt(num(a))); }
  public static Value Root4(Value a) { return mk(sqrt(sqrt(num(a)))); }
  // double precision power (relative error about 1e-16)
  public static Value Pow(Value a, Value b) {
    DD x = num(a), y = num(b);
    if (x.nan() || y.nan()) return mk(NAN);
    return mk(of(Math.pow(x.h, y.h)));
  }
  public static Value PowI(Value a, Value k) {
    DD x = num(a), r = ONE;
    int n = ((IntValue) k).val;
    for (int i = 0; i < Math.abs(n); i++) r = mul(r, x);
    return mk(n >= 0 ? r : div(ONE, r));
  }
  public static Value Cos(Value a) { DD x = num(a); return mk(x.nan() ? NAN : of(Math.cos(x.h))); }
  public static Value Lt(Value a, Value b) {
    DD x = num(a), y = num(b);
    return bool(!x.nan() && !y.nan() && cmp(x, y) < 0);
  }
  public static Value Le(Value a, Value b) {
    DD x = num(a), y = num(b);
    return bool(!x.nan() && !y.nan() && cmp(x, y) <= 0);
  }
  public static Value Eq(Value a, Value b) {
    DD x = num(a), y = num(b);
    return bool(!x.nan() && !y.nan() && cmp(x, y) == 0);
  }
  public static Value IsNum(Value a) { return bool(!num(a).nan()); }
  public static Value Sgn(Value a) {
    DD x = num(a);
    return IntValue.gen(x.nan() ? 0 : x.h > 0 ? 1 : x.h < 0 ? -1 : 0);
  }
  // integer part, as a TLA+ Int (saturated)
  public static Value Floor(Value a) {
    DD x = num(a);
    if (x.nan()) return IntValue.gen(Integer.MIN_VALUE / 2);
    double f = Math.floor(x.h);
    if (f == x.h && x.l < 0) f -= 1;
    if (Math.abs(f) > 1e9) return IntValue.gen(f < 0 ? -1000000000 : 1000000000);
    return IntValue.gen((int) f);
  }
  // spacing of binary64 numbers at |a|
  public static Value Ulp(Value a) {
    DD x = num(a);
    return mk(x.nan() ? NAN : of(Math.ulp(x.h)));
  }
  // nearest binary64 number
  public static Value Fl(Value a) { return mk(of(num(a).h)); }
  // decimal string of a number, to be stored in a state
  public static Value Str(Value a) { return new StringValue(str(num(a))); }
  public static Value StrV(Value a) {
    Value[] e = vec(a);
    Value[] r = new Value[e.length];
    for (int i = 0; i < e.length; i++) r[i] = Str(e[i]);
    return new TupleValue(r);
  }

  // ---- vectors --------------------------------------------------------------------
  public static Value VAdd(Value a, Value b) {
    DD[] x = nums(a), y = nums(b, x.length, "VAdd"), r = new DD[x.length];
    for (int i = 0; i < r.length; i++) r[i] = add(x[i], y[i]);
    return mkvec(r);
  }
  public static Value VSub(Value a, Value b) {
    DD[] x = nums(a), y = nums(b, x.length, "VSub"), r = new DD[x.length];
    for (int i = 0; i < r.length; i++) r[i] = sub(x[i], y[i]);
    return mkvec(r);
  }
  public static Value VScale(Value c, Value a) {
    DD k = num(c);
    DD[] x = nums(a), r = new DD[x.length];
    for (int i = 0; i < r.length; i++) r[i] = mul(k, x[i]);
    return mkvec(r);
  }
  // a + c*b
  public static Value VAxpy(Value c, Value b, Value a) { return VAdd(a, VScale(c, b)); }
  // sum_k c[k] * v[k]
  public static Value LinComb(Value c, Value v) { return comb(c, v, false); }
  // sum_k |c[k]| |v[k]|: magnitude of what is summed (rounding)
  public static Value AbsComb(Value c, Value v) { return comb(c, v, true); }
  static Value comb(Value c, Value v, boolean abs) {
    DD[] k = nums(c);
    Value[] vs = vec(v);
    if (k.length != vs.length) throw new RuntimeException("Num: LinComb: sizes");
    DD[] r = null;
    for (int i = 0; i < k.length; i++) {
      DD[] x = nums(vs[i]);
      if (r == null) { r = new DD[x.length]; java.util.Arrays.fill(r, ZERO); }
      for (int j = 0; j < r.length; j++) {
        DD p = mul(k[i], x[j]);
        r[j] = add(r[j], abs ? abs(p) : p);
      }
    }
    return mkvec(r);
  }
  public static Value Dot(Value a, Value b) {
    DD[] x = nums(a), y = nums(b, x.length, "Dot");
    DD s = ZERO;
    for (int i = 0; i < x.length; i++) s = add(s, mul(x[i], y[i]));
    return mk(s);
  }
  public static Value VSum(Value a) {
    DD s = ZERO;
    for (DD x : nums(a)) s = add(s, x);
    return mk(s);
  }
  public static Value VMulC(Value a, Value b) { // componentwise product
    DD[] x = nums(a), y = nums(b, x.length, "VMulC"), r = new DD[x.length];
    for (int i = 0; i < r.length; i++) r[i] = mul(x[i], y[i]);
    return mkvec(r);
  }
  public static Value VDivC(Value a, Value b) { // componentwise quotient
    DD[] x = nums(a), y = nums(b, x.length, "VDivC"), r = new DD[x.length];
    for (int i = 0; i < r.length; i++) r[i] = div(x[i], y[i]);
    return mkvec(r);
  }
  public static Value VAbs(Value a) {
    DD[] x = nums(a), r = new DD[x.length];
    for (int i = 0; i < r.length; i++) r[i] = abs(x[i]);
    return mkvec(r);
  }
  public static Value VMaxC(Value a, Value b) {
    DD[] x = nums(a), y = nums(b, x.length, "VMaxC"), r = new DD[x.length];
    for (int i = 0; i < r.length; i++) r[i] = max(x[i], y[i]);
    return mkvec(r);
  }
  // largest absolute component (NaN if any is)
  public static Value NormInf(Value a) {
    DD m = ZERO;
    for (DD x : nums(a)) m = max(m, abs(x));
    return mk(m);
  }
  // root mean square of a[i]/s[i]
  public static Value Wrms(Value a, Value s) {
    DD[] x = nums(a), y = nums(s, x.length, "Wrms");
    DD r = ZERO;
    for (int i = 0; i < x.length; i++) {
      DD q = div(x[i], y[i]);
      r = add(r, mul(q, q));
    }
    return mk(sqrt(div(r, of(x.length))));
  }
  public static Value VIsNum(Value a) {
    for (DD x : nums(a)) if (x.nan()) return bool(false);
    return bool(true);
  }
  // componentwise |a-b| <= tol (a number)
  public static Value VNear(Value a, Value b, Value tol) {
    DD[] x = nums(a), y = nums(b);
    DD t = num(tol);
    if (x.length != y.length || t.nan()) return bool(false);
    for (int i = 0; i < x.length; i++) {
      if (x[i].nan() || y[i].nan()) return bool(false);
      if (cmp(abs(sub(x[i], y[i])), t) > 0) return bool(false);
    }
    return bool(true);
  }
  // componentwise |a-b| <= tol[i]
  public static Value VNearC(Value a, Value b, Value tol) {
    DD[] x = nums(a), y = nums(b), t = nums(tol);
    if (x.length != y.length || x.length != t.length) return bool(false);
    for (int i = 0; i < x.length; i++) {
      if (x[i].nan() || y[i].nan() || t[i].nan()) return bool(false);
      if (cmp(abs(sub(x[i], y[i])), t[i]) > 0) return bool(false);
    }
    return bool(true);
  }
  // identical values (NaN equal to NaN)
  public static Value VSame(Value a, Value b) {
    DD[] x = nums(a), y = nums(b);
    if (x.length != y.length) return bool(false);
    for (int i = 0; i < x.length; i++) {
      if (x[i].nan() || y[i].nan()) { if (!(x[i].nan() && y[i].nan())) return bool(false); }
      else if (cmp(x[i], y[i]) != 0) return bool(false);
    }
    return bool(true);
  }
  // ---- matrices: sequences of rows ----------------------------------------------
  // a vector, a matrix, evaluated once and for all
  public static Value Vec(Value a) { return mkvec(nums(a)); }
  public static Value Mat(Value m) {
    Value[] rows = vec(m);
    Value[] r = new Value[rows.length];
    for (int i = 0; i < r.length; i++) r[i] = mkvec(nums(rows[i]));
    return new TupleValue(r);
  }
  public static Value MatVec(Value m, Value a) {
    Value[] rows = vec(m);
    DD[] x = nums(a), r = new DD[rows.length];
    for (int i = 0; i < r.length; i++) {
      DD[] row = nums(rows[i], x.length, "MatVec");
      DD s = ZERO;
      for (int j = 0; j < x.length; j++) if (row[j].h != 0) s = add(s, mul(row[j], x[j]));
      r[i] = s;
    }
    return mkvec(r);
  }
  static DD[][] rows(Value m) {
    Value[] rows = vec(m);
    DD[][] a = new DD[rows.length][];
    for (int i = 0; i < a.length; i++) a[i] = nums(rows[i]);
    return a;
  }
  static DD[] solve(DD[][] a0, DD[] b) { // Gauss, partial pivoting; NaN's if singular
    int n = a0.length;
    DD[] x = new DD[n], y = b.clone();
    java.util.Arrays.fill(x, NAN);
    DD[][] a = new DD[n][];
    for (int i = 0; i < n; i++) {
      a[i] = a0[i].clone();
      if (y[i].nan()) return x;
      for (DD v : a[i]) if (v.nan()) return x;
    }
    for (int k = 0; k < n; k++) {
      int p = k;
      for (int i = k + 1; i < n; i++) if (cmp(abs(a[i][k]), abs(a[p][k])) > 0) p = i;
      if (a[p][k].h == 0) return x;
      DD[] t = a[p]; a[p] = a[k]; a[k] = t;
      DD s = y[p]; y[p] = y[k]; y[k] = s;
      for (int i = k + 1; i < n; i++) {
        if (a[i][k].h == 0) continue;
        DD f = div(a[i][k], a[k][k]);
        for (int j = k + 1; j < n; j++) if (a[k][j].h != 0) a[i][j] = sub(a[i][j], mul(f, a[k][j]));
        y[i] = sub(y[i], mul(f, y[k]));
      }
    }
    DD[] r = new DD[n];
    for (int i = n - 1; i >= 0; i--) {
      DD s = y[i];
      for (int j = i + 1; j < n; j++) if (a[i][j].h != 0) s = sub(s, mul(a[i][j], r[j]));
      r[i] = div(s, a[i][i]);
    }
    return r;
  }
  // solution of m x = b
  public static Value LinSolve(Value m, Value b) {
    DD[][] a = rows(m);
    return mkvec(solve(a, nums(b, a.length, "LinSolve")));
  }
  // condition number in the maximum norm (NaN if singular)
  public static Value Cond(Value m) {
    DD[][] a = rows(m);
    int n = a.length;
    DD[] inv = new DD[n];
    DD nm = ZERO, ni = ZERO;
    java.util.Arrays.fill(inv, ZERO);
    for (DD[] row : a) {
      DD s = ZERO;
      for (DD v : row) s = add(s, abs(v));
      nm = max(nm, s);
    }
    for (int k = 0; k < n; k++) {
      DD[] e = new DD[n];
      for (int i = 0; i < n; i++) e[i] = i == k ? ONE : ZERO;
      DD[] c = solve(a, e);
      for (int i = 0; i < n; i++) inv[i] = add(inv[i], abs(c[i]));
    }
    for (DD v : inv) ni = max(ni, v);
    return mk(mul(nm, ni));
  }
}
