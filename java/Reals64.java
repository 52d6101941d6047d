import tlc2.value.impl.*;
import util.Assert;
import java.util.*;

/** Java definitions of the operators of spec/Reals64.tla (TLC binds them by class and method name). */
public class Reals64 {
  static double d(Value x) {
    if (x instanceof RealValue) return ((RealValue) x).v;
    if (x instanceof IntValue) return ((IntValue) x).val;
    Assert.fail("Reals64: expected a number, found " + x.toString());
    return 0;
  }
  static Value r(double v) { return new RealValue(v); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] elems(Value s) {
    Value t = s.toTuple();
    if (t == null) Assert.fail("Reals64: expected a sequence, found " + s.toString());
    return ((TupleValue) t).elems;
  }
  static double[] vec(Value s) {
    Value[] e = elems(s);
    double[] o = new double[e.length];
    for (int i = 0; i < o.length; i++) o[i] = d(e[i]);
    return o;
  }
  static double[][] mat(Value s) {
    Value[] e = elems(s);
    double[][] o = new double[e.length][];
    for (int i = 0; i < o.length; i++) o[i] = vec(e[i]);
    return o;
  }
  static Value tup(double[] a) {
    Value[] e = new Value[a.length];
    for (int i = 0; i < a.length; i++) e[i] = new RealValue(a[i]);
    return new TupleValue(e);
  }
  static Value tupm(double[][] a) {
    Value[] e = new Value[a.length];
    for (int i = 0; i < a.length; i++) e[i] = tup(a[i]);
    return new TupleValue(e);
  }

  // ---- scalars
  public static Value R(Value s) {
    if (s instanceof StringValue) return r(Double.parseDouble(((StringValue) s).val.toString()));
    return r(d(s));
  }
  public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
  public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
  public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
  public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
  public static Value RNeg(Value a) { return r(-d(a)); }
  public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
  public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value RExp(Value a) { return r(Math.exp(d(a))); }
  public static Value RLn(Value a) { return r(Math.log(d(a))); }
  public static Value RLog1p(Value a) { return r(Math.log1p(d(a))); }
  public static Value RTanh(Value a) { return r(Math.tanh(d(a))); }
  public static Value RCosh(Value a) { return r(Math.cosh(d(a))); }
  public static Value RSin(Value a) { return r(Math.sin(d(a))); }
  public static Value RPow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value REq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value RIsFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value RIsNum(Value a) { return b(a instanceof RealValue || a instanceof IntValue); }
  public static Value RMax2(Value a, Value c) { return r(Math.max(d(a), d(c))); }
  public static Value RMin2(Value a, Value c) { return r(Math.min(d(a), d(c))); }
  public static Value RFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  public static Value RRound(Value a, Value k) { // round half even to k decimals
    double x = d(a);
    if (Double.isNaN(x) || Double.isInfinite(x)) return r(x);
    return r(new java.math.BigDecimal(x).setScale(((IntValue) k).val, java.math.RoundingMode.HALF_EVEN).doubleValue());
  }
  /** |a-b| <= atol + rtol*max(|a|,|b|); NaN matches NaN, equal infinities match. */
  static boolean close(double x, double y, double rt, double at) {
    if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
    if (Double.isInfinite(x) || Double.isInfinite(y)) return x == y;
    return Math.abs(x - y) <= at + rt * Math.max(Math.abs(x), Math.abs(y));
  }
  public static Value RClose(Value a, Value c, Value rt, Value at) { return b(close(d(a), d(c), d(rt), d(at))); }
  public static Value VClose(Value a, Value c, Value rt, Value at) {
    double[] x = vec(a), y = vec(c);
    if (x.length != y.length) return b(false);
    for (int i = 0; i < x.length; i++) if (!close(x[i], y[i], d(rt), d(at))) return b(false);
    return b(true);
  }
  public static Value MClose(Value a, Value c, Value rt, Value at) {
    double[][] x = mat(a), y = mat(c);
    if (x.length != y.length) return b(false);
    for (int i = 0; i < x.length; i++) {
      if (x[i].length != y[i].length) return b(false);
      for (int j = 0; j < x[i].length; j++) if (!close(x[i][j], y[i][j], d(rt), d(at))) return b(false);
    }
    return b(true);
  }
  public static Value VFinite(Value a) {
    for (double x : vec(a)) if (Double.isNaN(x) || Double.isInfinite(x)) return b(false);
    return b(true);
  }
  public static Value MFinite(Value a) {
    for (double[] y : mat(a)) for (double x : y) if (Double.isNaN(x) || Double.isInfinite(x)) return b(false);
    return b(true);
  }

  // ---- vectors
  public static Value VSum(Value s) { return r(sum(vec(s))); }
  static double sum(double[] a) { // Neumaier
    double t = 0, c = 0;
    for (double x : a) {
      double u = t + x;
      c += Math.abs(t) >= Math.abs(x) ? (t - u) + x : (x - u) + t;
      t = u;
    }
    double q = t + c;
    return Double.isNaN(q) ? t : q;
  }
  public static Value VSort(Value s) { double[] a = vec(s); Arrays.sort(a); return tup(a); }
  public static Value VArgsort(Value s) { // 1-based, stable
    final double[] a = vec(s);
    Integer[] ix = new Integer[a.length];
    for (int i = 0; i < ix.length; i++) ix[i] = i;
    Arrays.sort(ix, (p, q) -> Double.compare(a[p], a[q]));
    Value[] e = new Value[ix.length];
    for (int i = 0; i < ix.length; i++) e[i] = IntValue.gen(ix[i] + 1);
    return new TupleValue(e);
  }
  public static Value VDot(Value s, Value t) {
    double[] a = vec(s), c = vec(t), o = new double[a.length];
    for (int i = 0; i < a.length; i++) o[i] = a[i] * c[i];
    return r(sum(o));
  }
  public static Value VAdd(Value s, Value t) { double[] a = vec(s), c = vec(t); for (int i = 0; i < a.length; i++) a[i] += c[i]; return tup(a); }
  public static Value VSub(Value s, Value t) { double[] a = vec(s), c = vec(t); for (int i = 0; i < a.length; i++) a[i] -= c[i]; return tup(a); }
  public static Value VMul(Value s, Value t) { double[] a = vec(s), c = vec(t); for (int i = 0; i < a.length; i++) a[i] *= c[i]; return tup(a); }
  public static Value VScale(Value k, Value s) { double[] a = vec(s); double f = d(k); for (int i = 0; i < a.length; i++) a[i] *= f; return tup(a); }
  public static Value VShift(Value s, Value k) { double[] a = vec(s); double f = d(k); for (int i = 0; i < a.length; i++) a[i] += f; return tup(a); }
  public static Value VAbs(Value s) { double[] a = vec(s); for (int i = 0; i < a.length; i++) a[i] = Math.abs(a[i]); return tup(a); }
  public static Value PairDiffs(Value s) {
    double[] a = vec(s);
    int n = a.length, k = 0;
    double[] o = new double[n * (n - 1) / 2];
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) o[k++] = Math.abs(a[i] - a[j]);
    return tup(o);
  }

  // ---- matrices (row-major sequences of rows)
  public static Value MT(Value m) {
    double[][] a = mat(m);
    double[][] o = new double[a.length == 0 ? 0 : a[0].length][a.length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < o.length; j++) o[j][i] = a[i][j];
    return tupm(o);
  }
  static double[][] mm(double[][] a, double[][] c) {
    int n = a.length, k = c.length, m = k == 0 ? 0 : c[0].length;
    double[][] o = new double[n][m];
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { double t = 0; for (int l = 0; l < k; l++) t += a[i][l] * c[l][j]; o[i][j] = t; }
    return o;
  }
  public static Value MMul(Value a, Value c) { return tupm(mm(mat(a), mat(c))); }
  public static Value MV(Value a, Value x) {
    double[][] m = mat(a); double[] v = vec(x); double[] o = new double[m.length];
    for (int i = 0; i < o.length; i++) { double t = 0; for (int j = 0; j < v.length; j++) t += m[i][j] * v[j]; o[i] = t; }
    return tup(o);
  }
  public static Value MScale(Value k, Value m) { double[][] a = mat(m); double f = d(k); for (double[] x : a) for (int j = 0; j < x.length; j++) x[j] *= f; return tupm(a); }
  public static Value MSub(Value m, Value q) { double[][] a = mat(m), c = mat(q); for (int i = 0; i < a.length; i++) for (int j = 0; j < a[i].length; j++) a[i][j] -= c[i][j]; return tupm(a); }
  static double[][] copy(double[][] a) { double[][] o = new double[a.length][]; for (int i = 0; i < a.length; i++) o[i] = a[i].clone(); return o; }
  /** solve A X = B by Gaussian elimination with partial pivoting; null when singular */
  static double[][] solve(double[][] a0, double[][] b0) {
    double[][] a = copy(a0), c = copy(b0);
    int n = a.length;
    for (int k = 0; k < n; k++) {
      int p = k;
      for (int i = k + 1; i < n; i++) if (Math.abs(a[i][k]) > Math.abs(a[p][k])) p = i;
      if (a[p][k] == 0 || Double.isNaN(a[p][k])) return null;
      double[] t = a[p]; a[p] = a[k]; a[k] = t; t = c[p]; c[p] = c[k]; c[k] = t;
      for (int i = 0; i < n; i++) if (i != k) {
        double f = a[i][k] / a[k][k];
        if (f == 0) continue;
        for (int j = k; j < n; j++) a[i][j] -= f * a[k][j];
        for (int j = 0; j < c[i].length; j++) c[i][j] -= f * c[k][j];
      }
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < c[i].length; j++) c[i][j] /= a[i][i];
    return c;
  }
  static double[][] eye(int n) { double[][] o = new double[n][n]; for (int i = 0; i < n; i++) o[i][i] = 1; return o; }
  static double[][] nans(int n, int m) { double[][] o = new double[n][m]; for (double[] x : o) Arrays.fill(x, Double.NaN); return o; }
  public static Value MInv(Value m) {
    double[][] a = mat(m); double[][] s = solve(a, eye(a.length));
    return tupm(s == null ? nans(a.length, a.length) : s);
  }
  public static Value MSolve(Value m, Value q) {
    double[][] a = mat(m), c = mat(q); double[][] s = solve(a, c);
    return tupm(s == null ? nans(c.length, c[0].length) : s);
  }
  static double det(double[][] a0) {
    double[][] a = copy(a0); int n = a.length; double t = 1;
    for (int k = 0; k < n; k++) {
      int p = k;
      for (int i = k + 1; i < n; i++) if (Math.abs(a[i][k]) > Math.abs(a[p][k])) p = i;
      if (a[p][k] == 0) return 0;
      if (p != k) { double[] u = a[p]; a[p] = a[k]; a[k] = u; t = -t; }
      t *= a[k][k];
      for (int i = k + 1; i < n; i++) { double f = a[i][k] / a[k][k]; for (int j = k; j < n; j++) a[i][j] -= f * a[k][j]; }
    }
    return t;
  }
  public static Value MDet(Value m) { return r(det(mat(m))); }
  /** eigenvalues of a symmetric matrix, descending (cyclic Jacobi) */
  static double[][] jacobi(double[][] a0, double[][] v) {
    int n = a0.length; double[][] a = copy(a0);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = 0.5 * (a0[i][j] + a0[j][i]);
    for (int sweep = 0; sweep < 100; sweep++) {
      double off = 0, tot = 0;
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i != j) off += a[i][j] * a[i][j]; tot += a[i][j] * a[i][j]; }
      if (off <= 1e-34 * tot || !(tot > 0)) break;
      for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
        if (a[p][q] == 0) continue;
        double th = (a[q][q] - a[p][p]) / (2 * a[p][q]);
        double t = Math.signum(th) / (Math.abs(th) + Math.sqrt(th * th + 1));
        if (th == 0) t = 1;
        double c = 1 / Math.sqrt(t * t + 1), s = t * c;
        for (int k = 0; k < n; k++) { double x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; }
        for (int k = 0; k < n; k++) { double x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; }
        if (v != null) for (int k = 0; k < n; k++) { double x = v[k][p], y = v[k][q]; v[k][p] = c * x - s * y; v[k][q] = s * x + c * y; }
      }
    }
    return a;
  }
  public static Value EigVals(Value m) {
    double[][] a = jacobi(mat(m), null); double[] e = new double[a.length];
    for (int i = 0; i < e.length; i++) e[i] = a[i][i];
    Arrays.sort(e);
    for (int i = 0, j = e.length - 1; i < j; i++, j--) { double t = e[i]; e[i] = e[j]; e[j] = t; }
    return tup(e);
  }
  /** rows: unit eigenvectors, in the order of EigVals (descending) */
  public static Value EigVecs(Value m) {
    double[][] a0 = mat(m); int n = a0.length; double[][] v = eye(n); double[][] a = jacobi(a0, v);
    Integer[] o = new Integer[n]; for (int i = 0; i < n; i++) o[i] = i;
    Arrays.sort(o, (x, y) -> Double.compare(a[y][y], a[x][x]));
    double[][] w = new double[n][n];
    for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) w[k][i] = v[i][o[k]];
    return tupm(w);
  }
  /** symmetric square root / matrix function: V f(D) V' with f = x^pw (pw may be negative) */
  public static Value MSymPow(Value m, Value pw) {
    double[][] a0 = mat(m); int n = a0.length; double[][] v = eye(n); double[][] a = jacobi(a0, v);
    double[][] o = new double[n][n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double t = 0; for (int k = 0; k < n; k++) t += v[i][k] * Math.pow(a[k][k], d(pw)) * v[j][k]; o[i][j] = t; }
    return tupm(o);
  }
  /** sum over i < j of sign(x_i - x_j) * sign(y_i - y_j) */
  public static Value Concordance(Value s, Value t) {
    double[] x = vec(s), y = vec(t); double c = 0;
    for (int i = 0; i < x.length; i++) for (int j = 0; j < i; j++) c += Math.signum(x[i] - x[j]) * Math.signum(y[i] - y[j]);
    return r(c);
  }
  public static Value ColMeans(Value m) {
    double[][] a = mat(m); int p = a[0].length; double[] o = new double[p];
    for (int j = 0; j < p; j++) { double[] c = new double[a.length]; for (int i = 0; i < a.length; i++) c[i] = a[i][j]; o[j] = sum(c) / a.length; }
    return tup(o);
  }
  /** cross-product matrix of the rows centred at mu: sum_i (x_i-mu)(x_i-mu)' */
  public static Value Scatter(Value m, Value mu) {
    double[][] a = mat(m); double[] u = vec(mu); int p = u.length; double[][] o = new double[p][p];
    for (double[] x : a) for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) o[i][j] += (x[i] - u[i]) * (x[j] - u[j]);
    return tupm(o);
  }
  /** squared Mahalanobis distances of the rows of m, by solving with the covariance */
  public static Value SqDists(Value m, Value mu, Value cov) {
    double[][] a = mat(m); double[] u = vec(mu); double[][] s = mat(cov); double[] o = new double[a.length];
    double[][] inv = solve(s, eye(s.length));
    for (int i = 0; i < a.length; i++) {
      if (inv == null) { o[i] = Double.NaN; continue; }
      double t = 0;
      for (int j = 0; j < u.length; j++) { double w = 0; for (int k = 0; k < u.length; k++) w += inv[j][k] * (a[i][k] - u[k]); t += w * (a[i][j] - u[j]); }
      o[i] = t;
    }
    return tup(o);
  }
  /** SelRows(m, ix): the rows of m at the 1-based positions ix */
  public static Value Sel(Value s, Value ix) {
    Value[] e = elems(s), q = elems(ix); Value[] o = new Value[q.length];
    for (int i = 0; i < o.length; i++) o[i] = e[((IntValue) q[i]).val - 1];
    return new TupleValue(o);
  }

  // ---- distributions
  static double lgam(double x) {
    double[] c = {76.18009172947146, -86.50532032941677, 24.01409824083091, -1.231739572450155, 0.1208650973866179e-2, -0.5395239384953e-5};
    // Lanczos g=607/128 (Godfrey), ~1e-15
    double[] g = {0.99999999999999709182, 57.156235665862923517, -59.597960355475491248, 14.136097974741747174, -0.49191381609762019978, .33994649984811888699e-4, .46523628927048575665e-4, -.98374475304879564677e-4, .15808870322491248884e-3, -.21026444172410488319e-3, .21743961811521264320e-3, -.16431810653676389022e-3, .84418223983852743293e-4, -.26190838401581408670e-4, .36899182659531622704e-5};
    double t = g[0];
    for (int i = 1; i < g.length; i++) t += g[i] / (x + i);
    double y = x + 607.0 / 128.0 + .5;
    return (x + .5) * Math.log(y) - y + Math.log(2.5066282746310005 * t / x);
  }
  static double gammaP(double a, double x) {
    if (!(x > 0)) return Double.isNaN(x) ? x : 0;
    if (Double.isInfinite(x)) return 1;
    double gl = lgam(a);
    if (x < a + 1) {
      double ap = a, s = 1 / a, t = s;
      for (int i = 0; i < 10000; i++) { ap++; t *= x / ap; s += t; if (Math.abs(t) < Math.abs(s) * 1e-17) break; }
      return s * Math.exp(-x + a * Math.log(x) - gl);
    }
    double bb = x + 1 - a, c = 1e300, dd = 1 / bb, h = dd;
    for (int i = 1; i < 10000; i++) {
      double an = -i * (i - a); bb += 2;
      dd = an * dd + bb; if (Math.abs(dd) < 1e-300) dd = 1e-300;
      c = bb + an / c; if (Math.abs(c) < 1e-300) c = 1e-300;
      dd = 1 / dd; double e = dd * c; h *= e; if (Math.abs(e - 1) < 1e-16) break;
    }
    return 1 - Math.exp(-x + a * Math.log(x) - gl) * h;
  }
  static double chi2cdf(double x, double df) { return gammaP(df / 2, x / 2); }
  static double chi2ppf(double q, double df) {
    if (q <= 0) return 0; if (q >= 1) return q == 1 ? Double.POSITIVE_INFINITY : Double.NaN;
    double lo = 0, hi = 1;
    while (chi2cdf(hi, df) < q) hi *= 2;
    for (int i = 0; i < 200; i++) { double m = 0.5 * (lo + hi); if (chi2cdf(m, df) < q) lo = m; else hi = m; }
    return 0.5 * (lo + hi);
  }
  static double normcdf(double x) { return x >= 0 ? 0.5 + 0.5 * gammaP(0.5, x * x / 2) : 0.5 - 0.5 * gammaP(0.5, x * x / 2); }
  static double normppf(double q) {
    if (q == 0.5) return 0;
    if (q > 0.5) return Math.sqrt(chi2ppf(2 * q - 1, 1));
    return -Math.sqrt(chi2ppf(1 - 2 * q, 1));
  }
  public static Value ChiCdf(Value x, Value df) { return r(chi2cdf(d(x), d(df))); }
  public static Value ChiPpf(Value q, Value df) { return r(chi2ppf(d(q), d(df))); }
  public static Value GammaCdf(Value x, Value a) { return r(gammaP(d(a), d(x))); }
  public static Value NormCdf(Value x) { return r(normcdf(d(x))); }
  public static Value NormPpf(Value q) { return r(normppf(d(q))); }

  // ---- records from files: JSON lines -> TLA+ values (numbers with '.', 'e', NaN or Infinity become reals)
  static final class P {
    final String s; int i = 0;
    P(String s) { this.s = s; }
    void ws() { while (i < s.length() && Character.isWhitespace(s.charAt(i))) i++; }
    Value val() {
      ws();
      char c = s.charAt(i);
      if (c == '{') {
        i++; ArrayList<util.UniqueString> k = new ArrayList<>(); ArrayList<Value> v = new ArrayList<>();
        ws();
        if (s.charAt(i) == '}') { i++; }
        else while (true) {
          ws(); String key = str(); ws(); i++; k.add(util.UniqueString.uniqueStringOf(key)); v.add(val()); ws();
          if (s.charAt(i++) == '}') break;
        }
        return new RecordValue(k.toArray(new util.UniqueString[0]), v.toArray(new Value[0]), false);
      }
      if (c == '[') {
        i++; ArrayList<Value> v = new ArrayList<>();
        ws();
        if (s.charAt(i) == ']') { i++; }
        else while (true) { v.add(val()); ws(); if (s.charAt(i++) == ']') break; }
        return new TupleValue(v.toArray(new Value[0]));
      }
      if (c == '"') return new StringValue(str());
      int j = i;
      while (i < s.length() && ",]} \t\r\n".indexOf(s.charAt(i)) < 0) i++;
      String t = s.substring(j, i);
      switch (t) {
        case "true": return BoolValue.ValTrue;
        case "false": return BoolValue.ValFalse;
        case "null": return new StringValue("null");
        case "NaN": return r(Double.NaN);
        case "Infinity": return r(Double.POSITIVE_INFINITY);
        case "-Infinity": return r(Double.NEGATIVE_INFINITY);
      }
      if (t.indexOf('.') < 0 && t.indexOf('e') < 0 && t.indexOf('E') < 0) {
        try { return IntValue.gen(Integer.parseInt(t)); } catch (NumberFormatException e) { return r(Double.parseDouble(t)); }
      }
      return r(Double.parseDouble(t));
    }
    String str() {
      StringBuilder b = new StringBuilder(); i++;
      while (true) {
        char c = s.charAt(i++);
        if (c == '"') return b.toString();
        if (c == '\\') {
          c = s.charAt(i++);
          if (c == 'n') c = '\n'; else if (c == 't') c = '\t'; else if (c == 'r') c = '\r';
          else if (c == 'u') { c = (char) Integer.parseInt(s.substring(i, i + 4), 16); i += 4; }
        }
        b.append(c);
      }
    }
  }
  public static Value LoadRecords(Value path) throws Exception {
    ArrayList<Value> out = new ArrayList<>();
    for (String line : java.nio.file.Files.readAllLines(java.nio.file.Paths.get(((StringValue) path).val.toString())))
      if (!line.isBlank()) out.add(new P(line).val());
    return new TupleValue(out.toArray(new Value[0]));
  }
}
