// TLC operator overrides for RealOps.tla (real arithmetic on IEEE doubles).
//
// A real is the TLA+ tuple <<hi, lo>> of the two 32 bit halves of its IEEE 754
// encoding (-0.0 and NaNs normalised), a vector <<x, y, z>>, a quaternion
// <<i, j, k, w>>, a matrix <<row1, row2, row3>> of such reals.  TLC finds the
// methods by name: public static methods of the class named like the module.
import tlc2.value.impl.*;

public class RealOps {
  // ---- conversion -------------------------------------------------------
  static Value[] t(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    return ((TupleValue) v.toTuple()).elems;
  }
  static int i(Value v) { return ((IntValue) v).val; }
  static double d(Value v) {
    Value[] e = t(v);
    return Double.longBitsToDouble(((long) i(e[0]) << 32) | (i(e[1]) & 0xffffffffL));
  }
  static Value r(double x) {
    if (x == 0) x = 0.0;
    long b = Double.doubleToLongBits(x);
    return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static double[] ds(Value v) {
    Value[] e = t(v);
    double[] o = new double[e.length];
    for (int k = 0; k < o.length; k++) o[k] = d(e[k]);
    return o;
  }
  static Value vs(double... x) {
    Value[] o = new Value[x.length];
    for (int k = 0; k < o.length; k++) o[k] = r(x[k]);
    return new TupleValue(o);
  }
  static double[][] md(Value v) {
    Value[] e = t(v);
    return new double[][] { ds(e[0]), ds(e[1]), ds(e[2]) };
  }
  static Value mv(double[][] m) { return new TupleValue(new Value[] { vs(m[0]), vs(m[1]), vs(m[2]) }); }

  // ---- scalars ----------------------------------------------------------
  public static Value F32(Value bits) { return r(Float.intBitsToFloat(i(bits))); }
  public static Value Num(Value n) { return r(i(n)); }
  public static Value Rat(Value a, Value c) { return r((double) i(a) / i(c)); }
  public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
  public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
  public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
  public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
  public static Value RNeg(Value a) { return r(-d(a)); }
  public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
  public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value RMin(Value a, Value c) { return r(Math.min(d(a), d(c))); }
  public static Value RMax(Value a, Value c) { return r(Math.max(d(a), d(c))); }
  public static Value RSign(Value a) { double x = d(a); return IntValue.gen(x > 0 ? 1 : x < 0 ? -1 : 0); }
  public static Value RFloor(Value a) { return r(Math.floor(d(a))); }
  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value REq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value RFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value RNear(Value a, Value c, Value tol) {
    double x = d(a), y = d(c);
    return b(x == y || Math.abs(x - y) <= d(tol));
  }
  public static Value RShow(Value a) { return new StringValue(String.format("%.7g", d(a))); }
  public static Value RToMilli(Value a) { return IntValue.gen((int) Math.round(d(a) * 1000)); }

  // ---- vectors ----------------------------------------------------------
  public static Value V32(Value v) {
    Value[] e = t(v);
    double[] o = new double[e.length];
    for (int k = 0; k < o.length; k++) o[k] = Float.intBitsToFloat(i(e[k]));
    return vs(o);
  }
  public static Value VAdd(Value a, Value c) { double[] x = ds(a), y = ds(c); return vs(x[0] + y[0], x[1] + y[1], x[2] + y[2]); }
  public static Value VSub(Value a, Value c) { double[] x = ds(a), y = ds(c); return vs(x[0] - y[0], x[1] - y[1], x[2] - y[2]); }
  public static Value VNeg(Value a) { double[] x = ds(a); return vs(-x[0], -x[1], -x[2]); }
  public static Value VScale(Value a, Value s) { double[] x = ds(a); double k = d(s); return vs(x[0] * k, x[1] * k, x[2] * k); }
  public static Value VDot(Value a, Value c) { return r(dot(ds(a), ds(c))); }
  static double dot(double[] x, double[] y) { return x[0] * y[0] + x[1] * y[1] + x[2] * y[2]; }
  static double[] cross(double[] x, double[] y) {
    return new double[] { x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0] };
  }
  public static Value VCross(Value a, Value c) { return vs(cross(ds(a), ds(c))); }
  public static Value VLen(Value a) { double[] x = ds(a); return r(Math.sqrt(dot(x, x))); }
  public static Value VUnit(Value a) {
    double[] x = ds(a);
    double l = Math.sqrt(dot(x, x));
    return vs(x[0] / l, x[1] / l, x[2] / l);
  }
  public static Value VLerp(Value a, Value c, Value s) {
    double[] x = ds(a), y = ds(c);
    double k = d(s), q = 1 - k;
    return vs(x[0] * q + y[0] * k, x[1] * q + y[1] * k, x[2] * q + y[2] * k);
  }
  public static Value VNear(Value a, Value c, Value tol) {
    double[] x = ds(a), y = ds(c);
    double m = d(tol);
    for (int k = 0; k < x.length; k++) if (!(x[k] == y[k] || Math.abs(x[k] - y[k]) <= m)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value VFinite(Value a) {
    for (double x : ds(a)) if (Double.isNaN(x) || Double.isInfinite(x)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value VMaxAbs(Value a) {
    double m = 0;
    for (double x : ds(a)) m = Math.max(m, Math.abs(x));
    return r(m);
  }

  // ---- quaternions <<i, j, k, w>> --------------------------------------
  static double[] qmul(double[] a, double[] c) {
    return new double[] {
      a[3] * c[0] + a[0] * c[3] + a[1] * c[2] - a[2] * c[1],
      a[3] * c[1] - a[0] * c[2] + a[1] * c[3] + a[2] * c[0],
      a[3] * c[2] + a[0] * c[1] - a[1] * c[0] + a[2] * c[3],
      a[3] * c[3] - a[0] * c[0] - a[1] * c[1] - a[2] * c[2] };
  }
  static double[] qexp(double[] v) {
    double a = Math.sqrt(dot(v, v));
    double s = a < 1e-12 ? 0.5 : Math.sin(a / 2) / a;
    return new double[] { v[0] * s, v[1] * s, v[2] * s, Math.cos(a / 2) };
  }
  static double[] qunit(double[] q) {
    double l = Math.sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
    return new double[] { q[0] / l, q[1] / l, q[2] / l, q[3] / l };
  }
  static double[] qrot(double[] q, double[] v) {
    double[] u = { q[0], q[1], q[2] };
    double[] c = cross(u, v);
    double[] e = cross(u, c);
    double w = q[3];
    return new double[] { v[0] + 2 * (w * c[0] + e[0]), v[1] + 2 * (w * c[1] + e[1]), v[2] + 2 * (w * c[2] + e[2]) };
  }
  public static Value QExp(Value v) { return vs(qexp(ds(v))); }
  public static Value QMul(Value a, Value c) { return vs(qmul(ds(a), ds(c))); }
  public static Value QInv(Value a) { double[] q = ds(a); return vs(-q[0], -q[1], -q[2], q[3]); }
  public static Value QUnit(Value a) { return vs(qunit(ds(a))); }
  public static Value QLen(Value a) { double[] q = ds(a); return r(Math.sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3])); }
  public static Value QRot(Value q, Value v) { return vs(qrot(ds(q), ds(v))); }
  public static Value QSame(Value a, Value c, Value tol) {
    double[] x = ds(a), y = ds(c);
    double p = 0, m = 0, k = d(tol);
    for (int n = 0; n < 4; n++) { p += (x[n] - y[n]) * (x[n] - y[n]); m += (x[n] + y[n]) * (x[n] + y[n]); }
    return b(Math.sqrt(Math.min(p, m)) <= k);
  }
  public static Value QDist(Value a, Value c) {
    double[] x = ds(a), y = ds(c);
    double p = 0, m = 0;
    for (int n = 0; n < 4; n++) { p += (x[n] - y[n]) * (x[n] - y[n]); m += (x[n] + y[n]) * (x[n] + y[n]); }
    return r(Math.sqrt(Math.min(p, m)));
  }
  public static Value QSlerp(Value a, Value c, Value s) {
    double[] x = ds(a), y = ds(c);
    double k = d(s), co = 0;
    for (int n = 0; n < 4; n++) co += x[n] * y[n];
    if (co < 0) { co = -co; for (int n = 0; n < 4; n++) y[n] = -y[n]; }
    double fa = 1 - k, fb = k;
    if (co < 1 - 1e-12) {
      double th = Math.acos(Math.min(1, co)), st = Math.sin(th);
      fa = Math.sin((1 - k) * th) / st;
      fb = Math.sin(k * th) / st;
    }
    double[] o = new double[4];
    for (int n = 0; n < 4; n++) o[n] = x[n] * fa + y[n] * fb;
    return vs(qunit(o));
  }

  // ---- matrices ---------------------------------------------------------
  public static Value M32(Value v) { // nine f32 bit patterns, row by row
    Value[] e = t(v);
    double[][] m = new double[3][3];
    for (int k = 0; k < 9; k++) m[k / 3][k % 3] = Float.intBitsToFloat(i(e[k]));
    return mv(m);
  }
  public static Value MAdd(Value a, Value c) {
    double[][] x = md(a), y = md(c);
    for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) x[p][q] += y[p][q];
    return mv(x);
  }
  public static Value MScale(Value a, Value s) {
    double[][] x = md(a);
    double k = d(s);
    for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) x[p][q] *= k;
    return mv(x);
  }
  public static Value MDiag(Value v) {
    double[] x = ds(v);
    return mv(new double[][] { { x[0], 0, 0 }, { 0, x[1], 0 }, { 0, 0, x[2] } });
  }
  public static Value MOuter(Value a, Value c) {
    double[] x = ds(a), y = ds(c);
    double[][] m = new double[3][3];
    for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) m[p][q] = x[p] * y[q];
    return mv(m);
  }
  public static Value MVec(Value a, Value v) {
    double[][] x = md(a);
    double[] y = ds(v);
    return vs(dot(x[0], y), dot(x[1], y), dot(x[2], y));
  }
  static double[][] mul(double[][] x, double[][] y) {
    double[][] m = new double[3][3];
    for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) for (int k = 0; k < 3; k++) m[p][q] += x[p][k] * y[k][q];
    return m;
  }
  static double[][] tr(double[][] x) {
    double[][] m = new double[3][3];
    for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) m[p][q] = x[q][p];
    return m;
  }
  static double[][] qmat(double[] q) {
    double[] a = qrot(q, new double[] { 1, 0, 0 }), c = qrot(q, new double[] { 0, 1, 0 }), e = qrot(q, new double[] { 0, 0, 1 });
    return tr(new double[][] { a, c, e });
  }
  // R M R^T where R is the rotation q
  public static Value MTurn(Value q, Value m) {
    double[][] R = qmat(ds(q));
    return mv(mul(mul(R, md(m)), tr(R)));
  }
  static double det(double[][] m) { return dot(m[0], cross(m[1], m[2])); }
  // Zero matrix if there's no inverse.
  public static Value MInv(Value a) {
    double[][] m = md(a);
    double D = det(m);
    double s = 0;
    for (double[] row : m) for (double x : row) s = Math.max(s, Math.abs(x));
    if (s == 0 || Math.abs(D) < 1e-18 * s * s * s || Double.isNaN(D) || Double.isInfinite(D)) return mv(new double[3][3]);
    double[] c0 = cross(m[1], m[2]), c1 = cross(m[2], m[0]), c2 = cross(m[0], m[1]);
    double[][] o = new double[3][3];
    for (int p = 0; p < 3; p++) { o[p][0] = c0[p] / D; o[p][1] = c1[p] / D; o[p][2] = c2[p] / D; }
    return mv(o);
  }
  // |det| relative to the size of the entries: how well the matrix can be inverted.
  public static Value MCond(Value a) {
    double[][] m = md(a);
    double s = 0;
    for (double[] row : m) for (double x : row) s = Math.max(s, Math.abs(x));
    return r(s == 0 ? 0 : Math.abs(det(m)) / (s * s * s));
  }
  public static Value MNear(Value a, Value c, Value tol) {
    double[][] x = md(a), y = md(c);
    double m = d(tol);
    for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++)
      if (!(x[p][q] == y[p][q] || Math.abs(x[p][q] - y[p][q]) <= m)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value MFinite(Value a) {
    for (double[] row : md(a)) for (double x : row) if (Double.isNaN(x) || Double.isInfinite(x)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value MMaxAbs(Value a) {
    double s = 0;
    for (double[] row : md(a)) for (double x : row) s = Math.max(s, Math.abs(x));
    return r(s);
  }

  // ---- sequences ---------------------------------------------------------
  public static Value SumR(Value v) {
    double x = 0;
    for (Value e : t(v)) x += d(e);
    return r(x);
  }
  public static Value SumV(Value v) {
    double[] o = new double[3];
    for (Value e : t(v)) { double[] x = ds(e); for (int k = 0; k < 3; k++) o[k] += x[k]; }
    return vs(o);
  }
  public static Value SumM(Value v) {
    double[][] o = new double[3][3];
    for (Value e : t(v)) { double[][] x = md(e); for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) o[p][q] += x[p][q]; }
    return mv(o);
  }
  public static Value MinOf(Value v) {
    double x = Double.POSITIVE_INFINITY;
    for (Value e : t(v)) x = Math.min(x, d(e));
    return r(x);
  }
  public static Value MaxOf(Value v) {
    double x = Double.NEGATIVE_INFINITY;
    for (Value e : t(v)) x = Math.max(x, d(e));
    return r(x);
  }
  public static Value SeqOf(Value v) {
    SetEnumValue s = (SetEnumValue) v.toSetEnum();
    s.normalize();
    Value[] o = new Value[s.elems.size()];
    for (int k = 0; k < o.length; k++) o[k] = s.elems.elementAt(k);
    return new TupleValue(o);
  }

  // ---- misc -------------------------------------------------------------
  // A fingerprint of any value, as a string (to name states of a state graph).
  public static Value Fp(Value v) {
    return new StringValue(Long.toHexString(v.fingerPrint(tlc2.util.FP64.New())));
  }
}
