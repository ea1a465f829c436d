// TLC module override for F64.tla: IEEE-754 binary64 arithmetic on strings.
import tlc2.value.impl.*;
import tlc2.value.IValue;
import java.util.concurrent.ConcurrentHashMap;

public class F64 {
    private static final ConcurrentHashMap<String, Double> cache = new ConcurrentHashMap<>();

    private static double d(Value v) {
        if (v instanceof IntValue) return (double) ((IntValue) v).val;
        String s = ((StringValue) v).val.toString();
        Double c = cache.get(s);
        if (c != null) return c;
        double r = parse(s);
        if (cache.size() < 4000000) cache.put(s, r);
        return r;
    }
    static double parse(String s) {
        String t = s.trim();
        boolean neg = false;
        if (t.startsWith("-")) { neg = true; t = t.substring(1); }
        else if (t.startsWith("+")) t = t.substring(1);
        String l = t.toLowerCase();
        double r;
        if (l.startsWith("inf")) r = Double.POSITIVE_INFINITY;
        else if (l.startsWith("nan")) r = Double.NaN;
        else if (l.startsWith("0x")) {
            if (l.indexOf('p') < 0) l = l + "p0";
            r = Double.parseDouble(l);
        } else r = Double.parseDouble(l);
        return neg ? -r : r;
    }
    private static Value s(double x) {
        String t;
        if (x != x) t = "nan";
        else if (x == 0) t = "0";
        else if (Double.isInfinite(x)) t = x > 0 ? "inf" : "-inf";
        else t = Double.toHexString(x);
        return new StringValue(t);
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value FNorm(Value a) { return s(d(a)); }
    public static Value FOf(Value n, Value m) { return s(d(n) / d(m)); }
    public static Value FAdd(Value a, Value c) { return s(d(a) + d(c)); }
    public static Value FSub(Value a, Value c) { return s(d(a) - d(c)); }
    public static Value FMul(Value a, Value c) { return s(d(a) * d(c)); }
    public static Value FDiv(Value a, Value c) { return s(d(a) / d(c)); }
    public static Value FSqrt(Value a) { return s(Math.sqrt(d(a))); }
    public static Value FNeg(Value a) { return s(-d(a)); }
    public static Value FAbs(Value a) { return s(Math.abs(d(a))); }
    public static Value FMin(Value a, Value c) { double x = d(a), y = d(c); return s(x <= y ? x : y); }
    public static Value FMax(Value a, Value c) { double x = d(a), y = d(c); return s(x >= y ? x : y); }
    public static Value FRnd32(Value a) { return s((double) (float) d(a)); }
    public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
    public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
    public static Value FEq(Value a, Value c) { return b(d(a) == d(c)); }
    public static Value FFinite(Value a) { double x = d(a); return b(x - x == 0); }
    public static Value FIsNaN(Value a) { double x = d(a); return b(x != x); }
    public static Value FSgn(Value a) { double x = d(a); return IntValue.gen(x > 0 ? 1 : x < 0 ? -1 : 0); }
    public static Value FCos(Value a) { return s(Math.cos(d(a))); }
    public static Value FSin(Value a) { return s(Math.sin(d(a))); }
    public static Value FClose(Value a, Value c, Value rtol, Value atol) {
        double x = d(a), y = d(c);
        if (x == y || (x != x && y != y)) return b(true);
        if (!(Math.abs(x) <= Double.MAX_VALUE && Math.abs(y) <= Double.MAX_VALUE)) return b(false);
        return b(Math.abs(x - y) <= d(atol) + d(rtol) * Math.max(Math.abs(x), Math.abs(y)));
    }

    // Vectors (these only speed up the definitions of F64.tla).
    private static Value[] e(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("F64: not a vector: " + v);
        return ((TupleValue) t).elems;
    }
    private interface Op { double f(double a, double c); }
    private static Value map2(Op op, Value x, Value y) {
        Value[] a = e(x), c = e(y);
        Value[] r = new Value[a.length];
        for (int i = 0; i < a.length; ++i) r[i] = s(op.f(d(a[i]), d(c[i])));
        return new TupleValue(r);
    }
    private static double dot(Value x, Value y) {
        Value[] a = e(x), c = e(y);
        double t = 0;
        for (int i = 0; i < a.length; ++i) t += d(a[i]) * d(c[i]);
        return t;
    }
    public static Value VAdd(Value x, Value y) { return map2((a, c) -> a + c, x, y); }
    public static Value VSub(Value x, Value y) { return map2((a, c) -> a - c, x, y); }
    public static Value VMul(Value x, Value y) { return map2((a, c) -> a * c, x, y); }
    public static Value VScale(Value k, Value x) { final double t = d(k); return map2((a, c) -> t * a, x, x); }
    public static Value VNeg(Value x) { return map2((a, c) -> -a, x, x); }
    public static Value VAxpy(Value k, Value x, Value y) { final double t = d(k); return map2((a, c) -> t * a + c, x, y); }
    public static Value VNormalise(Value x) { return map2((a, c) -> a, x, x); }
    public static Value VDot(Value x, Value y) { return s(dot(x, y)); }
    public static Value VNorm2(Value x) { return s(Math.sqrt(dot(x, x))); }
    public static Value VSum(Value x) {
        double t = 0;
        for (Value v : e(x)) t += d(v);
        return s(t);
    }
    public static Value VForce(Value x) { return new TupleValue(e(x)); }
    // Inverse of a square matrix (sequence of rows), <<>> if it is singular.
    public static Value MInverse(Value m) {
        Value[] rows = e(m);
        int n = rows.length;
        double[][] a = new double[n][2 * n];
        for (int i = 0; i < n; ++i) {
            Value[] r = e(rows[i]);
            for (int j = 0; j < n; ++j) a[i][j] = d(r[j]);
            a[i][n + i] = 1;
        }
        for (int c = 0; c < n; ++c) {
            int p = c;
            for (int i = c + 1; i < n; ++i) if (Math.abs(a[i][c]) > Math.abs(a[p][c])) p = i;
            if (!(Math.abs(a[p][c]) > 1e-13)) return new TupleValue(new Value[0]);
            double[] t = a[p]; a[p] = a[c]; a[c] = t;
            double q = a[c][c];
            for (int j = 0; j < 2 * n; ++j) a[c][j] /= q;
            for (int i = 0; i < n; ++i) {
                if (i == c) continue;
                double k = a[i][c];
                if (k != 0) for (int j = 0; j < 2 * n; ++j) a[i][j] -= k * a[c][j];
            }
        }
        Value[] r = new Value[n];
        for (int i = 0; i < n; ++i) {
            Value[] b = new Value[n];
            for (int j = 0; j < n; ++j) b[j] = s(a[i][n + j]);
            r[i] = new TupleValue(b);
        }
        return new TupleValue(r);
    }
}
