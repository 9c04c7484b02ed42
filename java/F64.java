// TLC overrides for module F64 (spec/F64.tla): IEEE-754 binary64 arithmetic.
// A number is the tuple <<hi, lo>> of the two 32-bit halves of its bit pattern,
// so that TLA+ equality is bit equality and JSON traces carry values losslessly.
import tlc2.value.impl.*;

public class F64 {
    private static Value[] el(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("F64: not a sequence: " + v);
        return ((TupleValue) t).elems;
    }
    static double d(Value v) {
        Value[] e = el(v);
        if (e.length != 2) throw new RuntimeException("F64: not a number: " + v);
        long hi = ((IntValue) e[0]).val, lo = ((IntValue) e[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }
    static Value f(double x) {
        long b = Double.doubleToLongBits(x);
        return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
    }
    static double[] vec(Value v) {
        Value[] e = el(v);
        double[] r = new double[e.length];
        for (int i = 0; i < r.length; i++) r[i] = d(e[i]);
        return r;
    }
    static Value vec(double[] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < a.length; i++) e[i] = f(a[i]);
        return new TupleValue(e);
    }
    static double[][] mat(Value v) {
        Value[] e = el(v);
        double[][] r = new double[e.length][];
        for (int i = 0; i < r.length; i++) r[i] = vec(e[i]);
        return r;
    }
    static Value mat(double[][] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < a.length; i++) e[i] = vec(a[i]);
        return new TupleValue(e);
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static int i(Value v) { return ((IntValue) v).val; }
    static void same(int a, int b) { if (a != b) throw new RuntimeException("F64: sizes differ: " + a + " " + b); }

    // scalars
    public static Value FI(Value n) { return f(i(n)); }
    public static Value FQ(Value p, Value q) { return f((double) i(p) / (double) i(q)); }
    public static Value FS(Value s) { return f(Double.parseDouble(((StringValue) s).val.toString())); }
    public static Value FAdd(Value a, Value c) { return f(d(a) + d(c)); }
    public static Value FSub(Value a, Value c) { return f(d(a) - d(c)); }
    public static Value FMul(Value a, Value c) { return f(d(a) * d(c)); }
    public static Value FDiv(Value a, Value c) { return f(d(a) / d(c)); }
    public static Value FNeg(Value a) { return f(-d(a)); }
    public static Value FAbs(Value a) { return f(Math.abs(d(a))); }
    public static Value FSqrt(Value a) { return f(Math.sqrt(d(a))); }
    public static Value FCbrt(Value a) { return f(Math.cbrt(d(a))); }
    public static Value FExp(Value a) { return f(Math.exp(d(a))); }
    public static Value FSin(Value a) { return f(Math.sin(d(a))); }
    public static Value FCos(Value a) { return f(Math.cos(d(a))); }
    public static Value FLog(Value a) { return f(Math.log(d(a))); }
    public static Value FPow(Value a, Value c) { return f(Math.pow(d(a), d(c))); }
    public static Value FMax(Value a, Value c) { double x = d(a), y = d(c); return f(x < y ? y : x); }
    public static Value FMin(Value a, Value c) { double x = d(a), y = d(c); return f(y < x ? y : x); }
    public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
    public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
    public static Value FEq(Value a, Value c) { return b(d(a) == d(c)); }
    public static Value FIsNaN(Value a) { return b(Double.isNaN(d(a))); }
    public static Value FIsFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    public static Value FTrunc(Value a) {
        double x = d(a);
        if (!(Math.abs(x) < 2e9)) return IntValue.gen(-2000000000);
        return IntValue.gen((int) x);
    }
    // |a-c| <= rtol*max(|a|,|c|) + atol; two NaNs are not close
    static boolean close(double x, double y, double r, double t) {
        if (x == y) return true;
        return Math.abs(x - y) <= r * Math.max(Math.abs(x), Math.abs(y)) + t;
    }
    public static Value FClose(Value a, Value c, Value r, Value t) { return b(close(d(a), d(c), d(r), d(t))); }

    // vectors
    public static Value VAdd(Value a, Value c) {
        double[] x = vec(a), y = vec(c); same(x.length, y.length);
        for (int k = 0; k < x.length; k++) x[k] += y[k];
        return vec(x);
    }
    public static Value VSub(Value a, Value c) {
        double[] x = vec(a), y = vec(c); same(x.length, y.length);
        for (int k = 0; k < x.length; k++) x[k] -= y[k];
        return vec(x);
    }
    public static Value VScale(Value s, Value a) {
        double[] x = vec(a); double t = d(s);
        for (int k = 0; k < x.length; k++) x[k] *= t;
        return vec(x);
    }
    public static Value VHad(Value a, Value c) {
        double[] x = vec(a), y = vec(c); same(x.length, y.length);
        for (int k = 0; k < x.length; k++) x[k] *= y[k];
        return vec(x);
    }
    public static Value VDot(Value a, Value c) {
        double[] x = vec(a), y = vec(c); same(x.length, y.length);
        double s = 0; for (int k = 0; k < x.length; k++) s += x[k] * y[k];
        return f(s);
    }
    public static Value VSum(Value a) {
        double s = 0; for (double x : vec(a)) s += x;
        return f(s);
    }
    public static Value VMaxAbs(Value a) {
        double s = 0; for (double x : vec(a)) { if (Double.isNaN(x)) return f(x); s = Math.max(s, Math.abs(x)); }
        return f(s);
    }
    public static Value VFinite(Value a) {
        for (double x : vec(a)) if (Double.isNaN(x) || Double.isInfinite(x)) return b(false);
        return b(true);
    }
    public static Value VClose(Value a, Value c, Value r, Value t) {
        double[] x = vec(a), y = vec(c); double rr = d(r), tt = d(t);
        if (x.length != y.length) return b(false);
        for (int k = 0; k < x.length; k++) if (!close(x[k], y[k], rr, tt)) return b(false);
        return b(true);
    }
    // componentwise |a-c| <= tol*scale
    public static Value VCloseS(Value a, Value c, Value s, Value t) {
        double[] x = vec(a), y = vec(c), z = vec(s); double tt = d(t);
        if (x.length != y.length) return b(false);
        same(x.length, z.length);
        for (int k = 0; k < x.length; k++)
            if (!(x[k] == y[k]) && !(Math.abs(x[k] - y[k]) <= tt * z[k])) return b(false);
        return b(true);
    }

    // matrices: sequences of rows
    public static Value MT(Value a) {
        double[][] x = mat(a); int n = x.length, m = x[0].length;
        double[][] r = new double[m][n];
        for (int p = 0; p < n; p++) for (int q = 0; q < m; q++) r[q][p] = x[p][q];
        return mat(r);
    }
    static double[][] mul(double[][] x, double[][] y) {
        int n = x.length, k = y.length, m = y[0].length; same(x[0].length, k);
        double[][] r = new double[n][m];
        for (int p = 0; p < n; p++) for (int q = 0; q < m; q++) {
            double s = 0; for (int t = 0; t < k; t++) s += x[p][t] * y[t][q];
            r[p][q] = s;
        }
        return r;
    }
    public static Value MMul(Value a, Value c) { return mat(mul(mat(a), mat(c))); }
    public static Value MAdd(Value a, Value c) {
        double[][] x = mat(a), y = mat(c); same(x.length, y.length);
        for (int p = 0; p < x.length; p++) { same(x[p].length, y[p].length); for (int q = 0; q < x[p].length; q++) x[p][q] += y[p][q]; }
        return mat(x);
    }
    public static Value MSub(Value a, Value c) {
        double[][] x = mat(a), y = mat(c); same(x.length, y.length);
        for (int p = 0; p < x.length; p++) { same(x[p].length, y[p].length); for (int q = 0; q < x[p].length; q++) x[p][q] -= y[p][q]; }
        return mat(x);
    }
    public static Value MScale(Value s, Value a) {
        double[][] x = mat(a); double t = d(s);
        for (double[] row : x) for (int q = 0; q < row.length; q++) row[q] *= t;
        return mat(x);
    }
    public static Value MVec(Value a, Value v) {
        double[][] x = mat(a); double[] y = vec(v); double[] r = new double[x.length];
        for (int p = 0; p < x.length; p++) { same(x[p].length, y.length); double s = 0; for (int q = 0; q < y.length; q++) s += x[p][q] * y[q]; r[p] = s; }
        return vec(r);
    }
    public static Value MMaxAbs(Value a) {
        double s = 0; for (double[] r : mat(a)) for (double x : r) { if (Double.isNaN(x)) return f(x); s = Math.max(s, Math.abs(x)); }
        return f(s);
    }
    public static Value MDet3(Value a) {
        double[][] x = mat(a);
        return f(x[0][0] * (x[1][1] * x[2][2] - x[1][2] * x[2][1])
               - x[0][1] * (x[1][0] * x[2][2] - x[1][2] * x[2][0])
               + x[0][2] * (x[1][0] * x[2][1] - x[1][1] * x[2][0]));
    }
    // Gaussian elimination with partial pivoting; solves a x = c for a matrix c
    static double[][] solve(double[][] a, double[][] c) {
        int n = a.length, m = c[0].length;
        for (int k = 0; k < n; k++) {
            int p = k;
            for (int q = k + 1; q < n; q++) if (Math.abs(a[q][k]) > Math.abs(a[p][k])) p = q;
            double[] t = a[k]; a[k] = a[p]; a[p] = t;
            t = c[k]; c[k] = c[p]; c[p] = t;
            for (int q = k + 1; q < n; q++) {
                double l = a[q][k] / a[k][k];
                if (l == 0) continue;
                for (int j = k; j < n; j++) a[q][j] -= l * a[k][j];
                for (int j = 0; j < m; j++) c[q][j] -= l * c[k][j];
            }
        }
        for (int k = n - 1; k >= 0; k--)
            for (int j = 0; j < m; j++) {
                double s = c[k][j];
                for (int q = k + 1; q < n; q++) s -= a[k][q] * c[q][j];
                c[k][j] = s / a[k][k];
            }
        return c;
    }
    public static Value MSolve(Value a, Value c) { return mat(solve(mat(a), mat(c))); }
    public static Value MInv(Value a) {
        double[][] x = mat(a); int n = x.length; double[][] e = new double[n][n];
        for (int k = 0; k < n; k++) e[k][k] = 1;
        return mat(solve(x, e));
    }
    // spectral radius, as the limit of ||a^(2^k)||^(1/2^k) (Gelfand)
    public static Value MSpecRad(Value a) {
        double[][] x = mat(a); double lg = 0, w = 1; int n = x.length;
        for (int k = 0; k < 60; k++) {
            double s = 0;
            for (double[] r : x) for (double y : r) { if (Double.isNaN(y)) return f(y); s = Math.max(s, Math.abs(y)); }
            if (s == 0) return f(0);
            lg += w * Math.log(s); w /= 2;
            for (double[] r : x) for (int q = 0; q < n; q++) r[q] /= s;
            x = mul(x, x);
        }
        return f(Math.exp(lg));
    }
    // |a| x for a matrix with real eigenvalues, |a| = 2/pi int_0^inf a^2 (a^2 + t^2)^-1 dt, t = e^s
    public static Value MAbsVec(Value a, Value v) {
        double[][] m = mat(a); double[] x = vec(v); int n = m.length;
        double s = 0;
        for (double[] r : m) for (double y : r) { if (Double.isNaN(y)) return v; s = Math.max(s, Math.abs(y)); }
        if (s == 0) return vec(new double[n]);
        double[][] q = mul(m, m), b = new double[n][1];
        for (int k = 0; k < n; k++) for (int l = 0; l < n; l++) b[k][0] += q[k][l] * x[l];
        double[] r = new double[n];
        double h = .25, big = 0;
        for (double y : x) big = Math.max(big, Math.abs(y));
        for (double z = Math.log(s) - 60; z < Math.log(s) + 40; z += h) {
            double t = Math.exp(z);
            double[][] c = new double[n][];
            for (int k = 0; k < n; k++) { c[k] = q[k].clone(); c[k][k] += t * t; }
            double[][] bb = new double[n][];
            for (int k = 0; k < n; k++) bb[k] = b[k].clone();
            double[][] y = solve(c, bb);
            // in negligible terms the pivots of a singular matrix are rounding errors
            boolean lost = false;
            for (int k = 0; k < n; k++) lost |= !(Math.abs(y[k][0]) <= 1e3 * big);
            if (lost && t < 1e-7 * s) continue;
            for (int k = 0; k < n; k++) r[k] += 2 / Math.PI * h * t * y[k][0];
        }
        return vec(r);
    }
    // symmetric eigenproblem (Jacobi): <<eigenvalues, rows = eigenvectors>>
    public static Value MSymEig(Value m) {
        double[][] a = mat(m); int n = a.length; double[][] v = new double[n][n];
        for (int k = 0; k < n; k++) v[k][k] = 1;
        for (int sweep = 0; sweep < 100; sweep++) {
            double off = 0;
            for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) off += a[p][q] * a[p][q];
            if (off == 0) break;
            for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
                if (a[p][q] == 0) continue;
                double th = (a[q][q] - a[p][p]) / (2 * a[p][q]);
                double t = (th >= 0 ? 1 : -1) / (Math.abs(th) + Math.sqrt(th * th + 1));
                double c = 1 / Math.sqrt(t * t + 1), s = t * c;
                for (int k = 0; k < n; k++) { double x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; }
                for (int k = 0; k < n; k++) { double x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; }
                for (int k = 0; k < n; k++) { double x = v[p][k], y = v[q][k]; v[p][k] = c * x - s * y; v[q][k] = s * x + c * y; }
            }
        }
        double[] w = new double[n];
        for (int k = 0; k < n; k++) w[k] = a[k][k];
        return new TupleValue(new Value[] { vec(w), mat(v) });
    }
    // the n-vector of zeros; the rows of an n*m vector
    public static Value VZero(Value n) { return vec(new double[i(n)]); }
    public static Value Rows(Value v, Value m) {
        Value[] e = el(v); int w = i(m), n = e.length / w; same(n * w, e.length);
        Value[] r = new Value[n];
        for (int k = 0; k < n; k++) { Value[] t = new Value[w]; System.arraycopy(e, k * w, t, 0, w); r[k] = new TupleValue(t); }
        return new TupleValue(r);
    }
    public static Value Flat(Value v) {
        Value[] e = el(v); java.util.ArrayList<Value> r = new java.util.ArrayList<>();
        for (Value x : e) for (Value y : el(x)) r.add(y);
        return new TupleValue(r.toArray(new Value[0]));
    }
    // force a lazily evaluated sequence
    public static Value Seq_(Value v) { return new TupleValue(el(v)); }
    // human-readable rendering for diagnostics
    public static Value FStr(Value a) { return new StringValue(Double.toString(d(a))); }
    public static Value VStr(Value a) { return new StringValue(java.util.Arrays.toString(vec(a))); }
}
