/* TLC's implementation of Num.tla: double precision numbers, as strings. */
import tlc2.value.impl.*;
import util.UniqueString;

public class Num {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    return Double.parseDouble(((StringValue) v).val.toString());
  }

  static Value s(double x) {
    return new StringValue(UniqueString.uniqueStringOf(Double.toString(x)));
  }

  static Value b(boolean x) {
    return x ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  static double[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    double[] r = new double[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = d(t.elems[i]);
    return r;
  }

  static Value tup(double[] x) {
    Value[] r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = s(x[i]);
    return new TupleValue(r);
  }

  public static Value R(Value a) { return s(d(a)); }
  public static Value RAdd(Value a, Value c) { return s(d(a) + d(c)); }
  public static Value RSub(Value a, Value c) { return s(d(a) - d(c)); }
  public static Value RMul(Value a, Value c) { return s(d(a) * d(c)); }
  public static Value RDiv(Value a, Value c) { return s(d(a) / d(c)); }
  public static Value RNeg(Value a) { return s(-d(a)); }
  public static Value RAbs(Value a) { return s(Math.abs(d(a))); }
  public static Value RSqrt(Value a) { return s(Math.sqrt(d(a))); }
  public static Value RLn(Value a) { return s(Math.log(d(a))); }
  public static Value RExp(Value a) { return s(Math.exp(d(a))); }
  public static Value RMax(Value a, Value c) { return s(Math.max(d(a), d(c))); }
  public static Value RMin(Value a, Value c) { return s(Math.min(d(a), d(c))); }
  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value REq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value RFinite(Value a) {
    double x = d(a);
    return b(!Double.isNaN(x) && !Double.isInfinite(x));
  }
  public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }

  public static Value RClose(Value a, Value c, Value tol) {
    double x = d(a), y = d(c), t = d(tol);
    if (x == y) return b(true);
    if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y))
      return b(Double.isNaN(x) && Double.isNaN(y));
    return b(Math.abs(x - y) <= t * Math.max(1, Math.max(Math.abs(x), Math.abs(y))));
  }

  /** Like RClose, for numbers that may be small: of the order of f. */
  public static Value RNear(Value a, Value c, Value tol, Value f) {
    double x = d(a), y = d(c), t = d(tol);
    if (x == y) return b(true);
    if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y))
      return b(Double.isNaN(x) && Double.isNaN(y));
    return b(Math.abs(x - y) <= t * Math.max(d(f), Math.max(Math.abs(x), Math.abs(y))));
  }

  public static Value RFloor(Value a) { return clamp(Math.floor(d(a))); }
  public static Value RCeil(Value a) { return clamp(Math.ceil(d(a))); }

  static Value clamp(double x) {
    if (Double.isNaN(x)) return IntValue.gen(-2000000000);
    return IntValue.gen((int) Math.max(-2e9, Math.min(2e9, x)));
  }

  public static Value RSum(Value v) {
    double t = 0;
    for (double x : seq(v)) t += x;
    return s(t);
  }

  public static Value RDot(Value v, Value w) {
    double t = 0;
    double[] x = seq(v), y = seq(w);
    if (x.length != y.length) return s(Double.NaN);
    for (int i = 0; i < x.length; i++) t += x[i] * y[i];
    return s(t);
  }

  public static Value RMean(Value v) {
    double[] x = seq(v);
    double t = 0;
    for (double y : x) t += y;
    return s(t / x.length);
  }

  /* Population variance. */
  public static Value RVar(Value v) {
    double[] x = seq(v);
    double m = 0, t = 0;
    for (double y : x) m += y;
    m /= x.length;
    for (double y : x) t += (y - m) * (y - m);
    return s(t / x.length);
  }

  public static Value RSort(Value v) {
    double[] x = seq(v);
    java.util.Arrays.sort(x);   // NaN last
    return tup(x);
  }

  /* Solves a x = y; a is a tuple of rows.  NaN for singular systems. */
  public static Value RSolve(Value a, Value y) {
    TupleValue rows = (TupleValue) a.toTuple();
    int n = rows.elems.length;
    double[][] m = new double[n][];
    double[] r = seq(y);
    for (int i = 0; i < n; i++) m[i] = seq(rows.elems[i]);
    for (int c = 0; c < n; c++) {
      int p = c;
      for (int i = c + 1; i < n; i++) if (Math.abs(m[i][c]) > Math.abs(m[p][c])) p = i;
      double[] tr = m[c]; m[c] = m[p]; m[p] = tr;
      double t = r[c]; r[c] = r[p]; r[p] = t;
      for (int i = c + 1; i < n; i++) {
        double f = m[i][c] / m[c][c];
        for (int j = c; j < n; j++) m[i][j] -= f * m[c][j];
        r[i] -= f * r[c];
      }
    }
    double[] x = new double[n];
    for (int i = n - 1; i >= 0; i--) {
      double t = r[i];
      for (int j = i + 1; j < n; j++) t -= m[i][j] * x[j];
      x[i] = t / m[i][i];
    }
    return tup(x);
  }

  static double[][] matrix(Value a) {
    TupleValue rows = (TupleValue) a.toTuple();
    double[][] m = new double[rows.elems.length][];
    for (int i = 0; i < m.length; i++) m[i] = seq(rows.elems[i]);
    return m;
  }

  /** ln det of a positive definite matrix. */
  public static Value RLogDet(Value a) {
    double[][] m = matrix(a);
    int n = m.length;
    double r = 0;
    for (int c = 0; c < n; c++) {
      r += Math.log(m[c][c]);
      for (int i = c + 1; i < n; i++) {
        double f = m[i][c] / m[c][c];
        for (int j = c; j < n; j++) m[i][j] -= f * m[c][j];
      }
    }
    return s(r);
  }

  /** The lowest eigenvalue of a symmetric matrix (Jacobi rotations). */
  public static Value REigMin(Value a) {
    double[][] m = matrix(a);
    int n = m.length;
    for (int sweep = 0; sweep < 60; sweep++)
      for (int p = 0; p < n; p++)
        for (int q = p + 1; q < n; q++) {
          if (m[p][q] == 0) continue;
          double th = (m[q][q] - m[p][p]) / (2 * m[p][q]);
          double t = (th >= 0 ? 1 : -1) / (Math.abs(th) + Math.sqrt(th * th + 1));
          double c = 1 / Math.sqrt(t * t + 1), si = t * c;
          for (int k = 0; k < n; k++) {
            double x = m[k][p], y = m[k][q];
            m[k][p] = c * x - si * y;
            m[k][q] = si * x + c * y;
          }
          for (int k = 0; k < n; k++) {
            double x = m[p][k], y = m[q][k];
            m[p][k] = c * x - si * y;
            m[q][k] = si * x + c * y;
          }
        }
    double r = m[0][0];
    for (int i = 1; i < n; i++) r = Math.min(r, m[i][i]);
    return s(r);
  }

  static double lgamma(double x) {
    double[] c = {0.99999999999980993, 676.5203681218851, -1259.1392167224028,
        771.32342877765313, -176.61502916214059, 12.507343278686905,
        -0.13857109526572012, 9.9843695780195716e-6, 1.5056327351493116e-7};
    if (x < .5) return Math.log(Math.PI / Math.sin(Math.PI * x)) - lgamma(1 - x);
    x -= 1;
    double a = c[0], t = x + 7.5;
    for (int i = 1; i < 9; i++) a += c[i] / (x + i);
    return .5 * Math.log(2 * Math.PI) + (x + .5) * Math.log(t) - t + Math.log(a);
  }

  /* Upper (q) or lower regularised incomplete gamma function. */
  static double gamma(double a, double x, boolean q) {
    if (x <= 0) return q ? 1 : 0;
    double pre = Math.exp(-x + a * Math.log(x) - lgamma(a));
    if (x < a + 1) {
      double sum = 1 / a, del = sum, ap = a;
      for (int i = 0; i < 10000; i++) {
        ap++; del *= x / ap; sum += del;
        if (Math.abs(del) < Math.abs(sum) * 1e-17) break;
      }
      return q ? 1 - sum * pre : sum * pre;
    }
    double tiny = 1e-300, bb = x + 1 - a, c = 1 / tiny, dd = 1 / bb, h = dd;
    for (int i = 1; i < 10000; i++) {
      double an = -i * (i - a);
      bb += 2;
      dd = an * dd + bb; if (Math.abs(dd) < tiny) dd = tiny;
      c = bb + an / c; if (Math.abs(c) < tiny) c = tiny;
      dd = 1 / dd;
      double del = dd * c;
      h *= del;
      if (Math.abs(del - 1) < 1e-16) break;
    }
    return q ? pre * h : 1 - pre * h;
  }

  /* The z with P(N > z) = p, for 0 < p < 1/2. */
  public static Value RNormUpper(Value pv) {
    double p = d(pv);
    if (!(p > 0 && p <= .5)) return s(Double.NaN);
    double lo = 0, hi = 40;
    for (int i = 0; i < 200; i++) {
      double m = (lo + hi) / 2;
      if (gamma(.5, m * m / 2, true) / 2 > p) lo = m; else hi = m;
    }
    return s((lo + hi) / 2);
  }

  /* Quantile of the chi-squared distribution with df degrees of freedom. */
  public static Value RChi2Q(Value pv, Value dfv) {
    double p = d(pv), k = d(dfv) / 2;
    if (!(p > 0 && p < 1 && k > 0)) return s(Double.NaN);
    double lo = 0, hi = 1;
    while (gamma(k, hi / 2, false) < p && hi < 1e9) hi *= 2;
    for (int i = 0; i < 300; i++) {
      double m = (lo + hi) / 2;
      boolean less = p > .5 ? gamma(k, m / 2, true) > 1 - p : gamma(k, m / 2, false) < p;
      if (less) lo = m; else hi = m;
    }
    return s((lo + hi) / 2);
  }
}
