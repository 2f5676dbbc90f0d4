package verif;

import java.math.BigDecimal;
import java.math.MathContext;
import java.util.HashMap;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/**
 * Java implementation of the operators declared in spec/IReal.tla: real numbers
 * represented by outward-rounded intervals of doubles.
 *
 * A TLA+ interval is the tuple <<tag, lo-hi32, lo-lo32, hi-hi32, hi-lo32>>.
 * tag 0: the real value is defined and lies in [lo, hi]
 * tag 1: the value is certainly undefined
 * tag 2: the value may be undefined; if defined (and not out of double range) it lies in [lo, hi]
 */
public final class IReal {
    static final double INF = Double.POSITIVE_INFINITY;
    static final double BIG = 1e280, TINY = 1e-280;

    static final class IV {
        final int tag; final double lo, hi;
        IV(int t, double l, double h) { tag = t; lo = l; hi = h; }
    }
    static final IV UNDEF = new IV(1, 0, 0);
    static final IV MAYBE = new IV(2, -INF, INF);

    static IV mk(int tag, double lo, double hi) {
        if (tag == 1) return UNDEF;
        if (Double.isNaN(lo) || Double.isNaN(hi)) return MAYBE;
        if (lo < -BIG || hi > BIG) return MAYBE;              // possible overflow in double arithmetic
        return new IV(tag, lo, hi);
    }
    /** outward rounding by n ulps */
    static double dn(double x, int n) { for (int i = 0; i < n; i++) x = Math.nextDown(x); return x; }
    static double up(double x, int n) { for (int i = 0; i < n; i++) x = Math.nextUp(x); return x; }
    static int jt(IV a, IV b) { return (a.tag == 1 || b.tag == 1) ? 1 : Math.max(a.tag, b.tag); }

    // ---- encoding ------------------------------------------------------------------------
    static Value enc(IV v) {
        long a = Double.doubleToRawLongBits(v.lo), b = Double.doubleToRawLongBits(v.hi);
        return new TupleValue(new Value[] { IntValue.gen(v.tag), IntValue.gen((int) (a >>> 32)), IntValue.gen((int) a),
                IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b) });
    }
    static int iv(Value v) { return ((IntValue) v).val; }
    static IV dec(Value val) {
        TupleValue t = (TupleValue) val.toTuple();
        long a = ((long) iv(t.elems[1]) << 32) | (iv(t.elems[2]) & 0xffffffffL);
        long b = ((long) iv(t.elems[3]) << 32) | (iv(t.elems[4]) & 0xffffffffL);
        return new IV(iv(t.elems[0]), Double.longBitsToDouble(a), Double.longBitsToDouble(b));
    }
    static String str(Value v) { return ((StringValue) v).val.toString(); }

    // ---- literals ------------------------------------------------------------------------
    static final HashMap<String, Value> LITS = new HashMap<>();

    /** "0x" + 16 hex digits: the exact double; otherwise a decimal literal (exact real, enclosed) */
    @TLAPlusOperator(identifier = "RLit", module = "IReal", warn = false)
    public static Value rLit(final Value s) {
        String t = str(s);
        synchronized (LITS) { Value v = LITS.get(t); if (v != null) return v; }
        Value v = enc(lit(t));
        synchronized (LITS) { LITS.put(t, v); }
        return v;
    }
    static double bits(String t) { return Double.longBitsToDouble(Long.parseUnsignedLong(t.substring(2), 16)); }
    static IV lit(String t) {
        if (t.startsWith("0x")) {
            double d = bits(t);
            if (Double.isNaN(d) || Double.isInfinite(d)) return UNDEF;
            if (Math.abs(d) > BIG) return MAYBE;
            return new IV(0, d, d);
        }
        BigDecimal bd = new BigDecimal(t);
        double d = bd.doubleValue();
        if (Double.isInfinite(d) || Math.abs(d) > BIG) return MAYBE;
        int c = new BigDecimal(d).compareTo(bd);
        if (c == 0) return new IV(0, d, d);
        // the program's literal is the nearest double; the real is between neighbours
        return new IV(0, Math.nextDown(d), Math.nextUp(d));
    }
    @TLAPlusOperator(identifier = "RRat", module = "IReal", warn = false)
    public static Value rRat(final Value p, final Value q) {
        double a = iv(p), b = iv(q);
        return enc(div(new IV(0, a, a), new IV(0, b, b)));
    }
    @TLAPlusOperator(identifier = "RConst", module = "IReal", warn = false)
    public static Value rConst(final Value n) {
        double c = str(n).equals("pi") ? Math.PI : Math.E;
        return enc(new IV(0, Math.nextDown(c), Math.nextUp(c)));
    }

    // ---- arithmetic ----------------------------------------------------------------------
    static boolean exactInt(IV a) { return a.lo == a.hi && a.lo == Math.rint(a.lo) && Math.abs(a.lo) < 1e15; }

    static IV add(IV a, IV b) {
        int t = jt(a, b); if (t == 1) return UNDEF;
        if (exactInt(a) && exactInt(b)) return mk(t, a.lo + b.lo, a.lo + b.lo);
        return mk(t, exSum(a.lo, b.lo, -1), exSum(a.hi, b.hi, 1));
    }
    /** sum rounded in the given direction (exact when the sum is exact) */
    static double exSum(double x, double y, int dir) {
        double s = x + y;
        if (Double.isInfinite(s) || Double.isNaN(s)) return s;
        double bb = s - x, err = (x - (s - bb)) + (y - bb);
        if (err == 0) return s;
        return dir < 0 ? (err < 0 ? Math.nextDown(s) : s) : (err > 0 ? Math.nextUp(s) : s);
    }
    static IV neg(IV a) { return a.tag == 1 ? UNDEF : new IV(a.tag, 0.0 - a.hi, 0.0 - a.lo); }
    static double m(double x, double y) { double r = x * y; return Double.isNaN(r) ? 0 : r; }
    static double exMul(double x, double y, int dir) {
        double p = m(x, y);
        if (Double.isInfinite(p)) return p;
        if (p != 0 && Math.abs(p) > 1e-270) {
            double e = Math.fma(x, y, -p);
            if (e == 0) return p;
            return dir < 0 ? (e < 0 ? Math.nextDown(p) : p) : (e > 0 ? Math.nextUp(p) : p);
        }
        if (x == 0 || y == 0) return 0;
        return dir < 0 ? Math.nextDown(p) : Math.nextUp(p);
    }
    static IV mul(IV a, IV b) {
        int t = jt(a, b); if (t == 1) return UNDEF;
        double lo = Math.min(Math.min(exMul(a.lo, b.lo, -1), exMul(a.lo, b.hi, -1)), Math.min(exMul(a.hi, b.lo, -1), exMul(a.hi, b.hi, -1)));
        double hi = Math.max(Math.max(exMul(a.lo, b.lo, 1), exMul(a.lo, b.hi, 1)), Math.max(exMul(a.hi, b.lo, 1), exMul(a.hi, b.hi, 1)));
        return under(mk(t, lo, hi));
    }
    /** results that may underflow in doubles are not judged */
    static IV under(IV r) {
        if (r.tag == 0 && Math.max(Math.abs(r.lo), Math.abs(r.hi)) < TINY && !(r.lo == 0 && r.hi == 0)) return new IV(2, -TINY, TINY);
        return r;
    }
    static double exDiv(double x, double y, int dir) {
        double q = x / y;
        if (Double.isNaN(q)) return 0;
        if (Double.isInfinite(q)) return q;
        double r = Math.fma(q, y, -x);           // q*y - x ; sign tells over/under
        if (r == 0) return q;
        return dir < 0 ? Math.nextDown(q) : Math.nextUp(q);
    }
    static IV div(IV a, IV b) {
        int t = jt(a, b); if (t == 1) return UNDEF;
        if (b.lo == 0 && b.hi == 0) return UNDEF;
        if (b.lo <= 0 && b.hi >= 0) return MAYBE;
        double lo = INF, hi = -INF;
        for (double x : new double[] { a.lo, a.hi }) for (double y : new double[] { b.lo, b.hi }) {
            lo = Math.min(lo, exDiv(x, y, -1)); hi = Math.max(hi, exDiv(x, y, 1));
        }
        return under(mk(t, lo, hi));
    }
    static IV ipow(IV a, long n) {
        if (n == 0) return new IV(a.tag, 1, 1);
        if (n < 0) return div(new IV(0, 1, 1), ipow(a, -n));
        if (n > 1 && n % 2 == 0 && a.lo < 0 && a.hi > 0) {
            double mx = Math.max(-a.lo, a.hi);
            IV r = ipow(new IV(a.tag, mx, mx), n);
            return r.tag == 1 ? r : mk(r.tag, 0, r.hi);
        }
        IV r = new IV(a.tag, 1, 1), b = a;
        while (n > 0) { if ((n & 1) == 1) r = mul(r, b); n >>= 1; if (n > 0) b = mul(b, b); }
        return r;
    }
    static IV pow(IV a, IV b) {
        int t = jt(a, b); if (t == 1) return UNDEF;
        if (a.tag == 2 && a.lo == -INF) return MAYBE;
        if (exactInt(b) && Math.abs(b.lo) <= 4096) {
            if (b.lo <= 0 && a.lo <= 0 && a.hi >= 0) {
                if (a.lo == 0 && a.hi == 0) return b.lo < 0 ? UNDEF : new IV(2, 1, 1);   // 0^0: not judged
                return b.lo == 0 ? new IV(2, 1, 1) : MAYBE;
            }
            IV r = ipow(new IV(t, a.lo, a.hi), (long) b.lo);
            return r;
        }
        if (a.hi < 0) return (Math.floor(b.lo) == Math.floor(b.hi) && b.lo != Math.floor(b.lo)) ? UNDEF : MAYBE;
        if (a.lo < 0) return MAYBE;
        if (a.lo == 0 && a.hi == 0) return b.lo > 0 ? new IV(t, 0, 0) : b.hi < 0 ? UNDEF : MAYBE;
        if (a.lo == 0 && b.lo <= 0) return MAYBE;
        double lo = INF, hi = -INF;
        for (double x : new double[] { a.lo, a.hi }) for (double y : new double[] { b.lo, b.hi }) {
            double p = StrictMath.pow(x, y);
            lo = Math.min(lo, p); hi = Math.max(hi, p);
        }
        // pow is within 1 ulp; monotone in each argument on each side of 1
        return under(mk(t, Math.max(0, dn(lo, 3)), up(hi, 3)));
    }

    interface F { double f(double x); }
    static IV mono(int t, IV a, F f, boolean inc, int ulps) {
        double l = f.f(inc ? a.lo : a.hi), h = f.f(inc ? a.hi : a.lo);
        return under(mk(t, l == 0 && a.lo == a.hi ? 0 : dn(l, ulps), h == 0 && a.lo == a.hi ? 0 : up(h, ulps)));
    }
    /** thin-interval rule: hull of three samples, widened by its own spread and a relative error */
    static IV smooth(int t, IV a, F f, double rel) {
        double w = a.hi - a.lo, mid = 0.5 * (a.lo + a.hi);
        if (!(w <= 1e-3 * Math.max(1, Math.abs(mid)))) return MAYBE;
        double x = f.f(a.lo), y = f.f(mid), z = f.f(a.hi);
        if (Double.isNaN(x) || Double.isNaN(y) || Double.isNaN(z)) return MAYBE;
        double lo = Math.min(x, Math.min(y, z)), hi = Math.max(x, Math.max(y, z)), s = hi - lo;
        double e = rel * Math.max(Math.abs(lo), Math.abs(hi));
        return under(mk(t, lo - s - e, hi + s + e));
    }
    static IV cap(IV r, double lo, double hi) { return r.tag == 1 ? r : new IV(r.tag, Math.max(lo, Math.min(hi, r.lo)), Math.min(hi, Math.max(lo, r.hi))); }

    static IV fun1(String n, IV a) {
        if (a.tag == 1) return UNDEF;
        if (Double.isInfinite(a.lo) || Double.isInfinite(a.hi)) {
            return MAYBE;
        }
        int t = a.tag;
        switch (n) {
            case "sin": case "cos": {
                if (Math.abs(a.lo) > 1e6 || Math.abs(a.hi) > 1e6) return new IV(2, -1, 1);
                return cap(trig(n, a, t), -1, 1);
            }
            case "tan": {
                if (Math.abs(a.lo) > 1e6 || Math.abs(a.hi) > 1e6) return MAYBE;
                double k = Math.floor((a.lo) / Math.PI + 0.5), k2 = Math.floor((a.hi) / Math.PI + 0.5);
                if (k != k2) return MAYBE;
                double d = Math.min(Math.abs(a.lo - (k - 0.5) * Math.PI), Math.abs(a.hi - (k + 0.5) * Math.PI));
                if (d < 1e-6) return MAYBE;
                return mono(t, a, StrictMath::tan, true, 3);
            }
            case "asin": case "acos": {
                if (a.hi < -1 || a.lo > 1) return UNDEF;
                if (a.lo < -1 || a.hi > 1) { a = new IV(2, Math.max(-1, a.lo), Math.min(1, a.hi)); t = 2; }
                return n.equals("asin") ? mono(t, a, StrictMath::asin, true, 3) : mono(t, a, StrictMath::acos, false, 3);
            }
            case "atan": return mono(t, a, StrictMath::atan, true, 3);
            case "sinh": return mono(t, a, StrictMath::sinh, true, 4);
            case "cosh": {
                if (a.lo <= 0 && a.hi >= 0) { double mx = Math.max(-a.lo, a.hi); return mk(t, 1, up(StrictMath.cosh(mx), 4)); }
                return mono(t, a, StrictMath::cosh, a.lo > 0, 4);
            }
            case "tanh": return cap(mono(t, a, StrictMath::tanh, true, 4), -1, 1);
            case "asinh": return mono(t, a, IReal::asinh, true, 8);
            case "acosh": {
                if (a.hi < 1) return UNDEF;
                if (a.lo < 1) { a = new IV(2, 1, a.hi); t = 2; }
                return mono(t, a, IReal::acosh, true, 8);
            }
            case "atanh": {
                if (a.hi <= -1 || a.lo >= 1) return UNDEF;
                if (a.lo <= -1 || a.hi >= 1) return MAYBE;
                return mono(t, a, x -> 0.5 * StrictMath.log1p(2 * x / (1 - x)), true, 8);
            }
            case "exp": return mono(t, a, StrictMath::exp, true, 3);
            case "ln": {
                if (a.hi <= 0) return UNDEF;
                if (a.lo <= 0) return MAYBE;
                return mono(t, a, StrictMath::log, true, 3);
            }
            case "sqrt": {
                if (a.hi < 0) return UNDEF;
                if (a.lo < 0) { a = new IV(2, 0, a.hi); t = 2; }
                return mono(t, a, Math::sqrt, true, exactSqrt(a) ? 0 : 1);
            }
            case "abs": {
                if (a.lo >= 0) return a;
                if (a.hi <= 0) return neg(a);
                return new IV(t, 0, Math.max(-a.lo, a.hi));
            }
            case "floor": return step(a, Math.floor(a.lo), Math.floor(a.hi));
            case "ceil": return step(a, Math.ceil(a.lo), Math.ceil(a.hi));
            case "round": return step(a, rnd(a.lo), rnd(a.hi));
            case "signum": return a.lo > 0 ? new IV(t, 1, 1) : a.hi < 0 ? new IV(t, -1, -1) : new IV(2, -1, 1);
            case "erf": return mono(t, a, IReal::erf, true, 64);
            case "erfc": { IV r = mono(t, a, IReal::erfc, false, 0); double e = 1e-13; return under(mk(r.tag, r.lo * (1 - e), r.hi * (1 + e))); }
            case "gamma": {
                if (pole(a)) return a.lo == a.hi ? UNDEF : MAYBE;
                if (Math.abs(a.lo) > 170 || Math.abs(a.hi) > 170 || nearPole(a)) return MAYBE;
                return smooth(t, a, IReal::gamma, 1e-12);
            }
            case "lambertw": {
                if (a.hi < -1 / Math.E) return UNDEF;
                if (a.lo < -1 / Math.E + 1e-9) return MAYBE;
                return mono(t, a, IReal::lambertw, true, 64);
            }
            case "elliptic_k": {
                double mx = Math.max(Math.abs(a.lo), Math.abs(a.hi)), mn = Math.min(Math.abs(a.lo), Math.abs(a.hi));
                if (mn >= 1 && a.lo * a.hi > 0) return UNDEF;
                if (mx >= 1) return MAYBE;
                return smooth(t, a, IReal::ellK, 1e-13);
            }
            case "elliptic_e": {
                double mx = Math.max(Math.abs(a.lo), Math.abs(a.hi)), mn = Math.min(Math.abs(a.lo), Math.abs(a.hi));
                if (mn > 1 && a.lo * a.hi > 0) return UNDEF;
                if (mx > 1) return MAYBE;
                return smooth(t, a, IReal::ellE, 1e-13);
            }
            default: throw new RuntimeException("IReal.fun1: unknown " + n);
        }
    }
    static boolean exactSqrt(IV a) { double l = Math.sqrt(a.lo), h = Math.sqrt(a.hi); return a.lo == a.hi && Math.fma(l, l, -a.lo) == 0; }
    static double rnd(double x) { return Math.signum(x) * Math.floor(Math.abs(x) + 0.5); }
    static IV step(IV a, double l, double h) { return l == h ? new IV(a.tag, l, l) : new IV(2, l, h); }
    /** within 1e-9 of a non-positive integer */
    static boolean nearPole(IV a) { return a.lo <= 1e-9 && (Math.abs(a.lo - Math.rint(a.lo)) < 1e-9 || Math.abs(a.hi - Math.rint(a.hi)) < 1e-9); }
    static boolean pole(IV a) { return a.lo <= 0 && Math.floor(a.hi) >= a.lo; }
    static IV trig(String n, IV a, int t) {
        boolean s = n.equals("sin");
        F f = s ? StrictMath::sin : StrictMath::cos;
        double l = f.f(a.lo), h = f.f(a.hi), lo = Math.min(l, h), hi = Math.max(l, h);
        if (a.hi - a.lo >= 6.28) return new IV(t, -1, 1);
        // extrema of sin at pi/2 + k pi, of cos at k pi
        double off = s ? 0.5 : 0.0;
        double k1 = Math.floor(a.lo / Math.PI - off - 1e-9) + 1, k2 = Math.floor(a.hi / Math.PI - off + 1e-9);
        for (double k = k1; k <= k2; k++) { if (((long) k & 1) == 0) hi = 1; else lo = -1; }
        if (a.lo == 0 && a.hi == 0) return new IV(t, lo, hi);
        return mk(t, dn(lo, 3), up(hi, 3));
    }
    static double asinh(double x) { double y = Math.abs(x); double r = y > 1e8 ? StrictMath.log(y) + 0.6931471805599453 : StrictMath.log1p(y + y * y / (1 + Math.sqrt(1 + y * y))); return x < 0 ? -r : r; }
    static double acosh(double x) { double y = x - 1; return x > 1e8 ? StrictMath.log(x) + 0.6931471805599453 : StrictMath.log1p(y + Math.sqrt(y * (2 + y))); }
    static double erf(double x) {
        if (x < 0) return -erf(-x);
        if (x > 6) return 1;
        if (x > 2.5) return 1 - erfc(x);
        double term = x, sum = x;
        for (int n = 1; n < 200; n++) { term *= 2 * x * x / (2 * n + 1); sum += term; if (term < 1e-18 * sum) break; }
        return 2 / Math.sqrt(Math.PI) * StrictMath.exp(-x * x) * sum;
    }
    static double erfc(double x) {
        if (x < 2.5) return 1 - erf(x);
        // continued fraction erfc(x) = exp(-x^2)/sqrt(pi) * 1/(x+ (1/2)/(x+ 1/(x+ (3/2)/(x+ ...
        double f = 0;
        for (int k = 120; k >= 1; k--) f = (k / 2.0) / (x + f);
        return StrictMath.exp(-x * x) / Math.sqrt(Math.PI) / (x + f);
    }
    static final double[] B = { 1.0 / 6, -1.0 / 30, 1.0 / 42, -1.0 / 30, 5.0 / 66, -691.0 / 2730, 7.0 / 6, -3617.0 / 510, 43867.0 / 798, -174611.0 / 330, 854513.0 / 138, -236364091.0 / 2730 };
    static double gamma(double x) {
        if (x == Math.rint(x) && x > 0 && x < 20) { double r = 1; for (int i = 2; i < x; i++) r *= i; return r; }
        if (x < 0.5) return Math.PI / (StrictMath.sin(Math.PI * frac(x)) * gamma(1 - x));
        double p = 1;
        while (x < 22) { p *= x; x += 1; }
        double s = 0, xk = x;
        for (int k = 1; k <= 8; k++) { s += B[k - 1] / (2.0 * k * (2 * k - 1) * xk); xk *= x * x; }
        return StrictMath.exp((x - 0.5) * StrictMath.log(x) - x + 0.9189385332046727418 + s) / p;
    }
    /** x reduced so that sin(pi*frac(x)) = sin(pi*x) */
    static double frac(double x) { double k = 2 * Math.rint(x / 2); return x - k; }
    static double polygamma(int n, double x) {
        double sgn = (n % 2 == 1) ? 1 : -1, fact = 1;
        for (int i = 2; i <= n; i++) fact *= i;
        double acc = 0;
        while (x < 25 + n) { acc += fact / StrictMath.pow(x, n + 1); x += 1; }
        double r;
        if (n == 0) {
            r = StrictMath.log(x) - 0.5 / x; double xk = x * x;
            for (int k = 1; k <= 8; k++) { r -= B[k - 1] / (2.0 * k * xk); xk *= x * x; }
            return r - acc;
        }
        r = fact / n / StrictMath.pow(x, n) + fact / 2 / StrictMath.pow(x, n + 1);
        double c = fact * (n + 1) / 2; // (2k+n-1)!/(2k)! at k=1 : (n+1)!/2!
        for (int k = 1; k <= 8; k++) {
            r += B[k - 1] * c / StrictMath.pow(x, 2 * k + n);
            c *= (2.0 * k + n) * (2.0 * k + n + 1) / ((2.0 * k + 1) * (2.0 * k + 2));
        }
        return sgn * (r + acc);
    }
    static double zetaRefl(double s) { return StrictMath.pow(2, s) * StrictMath.pow(Math.PI, s - 1) * StrictMath.sin(Math.PI * frac(s / 2)) * gamma(1 - s) * zeta(0, 1 - s); }
    /** n-th derivative of zeta at s by Euler-Maclaurin on truncated Taylor series */
    static double zeta(int n, double s) {
        int N = s < 0 ? 14 : 40, M = n + 1;
        double[] tot = new double[M];
        for (int k = 1; k <= N; k++) addTo(tot, expj(-StrictMath.log(k), StrictMath.pow(k, -s), M), k == N ? 0.5 : 1);
        // N^{1-s}/(s-1)
        double[] e = expj(-StrictMath.log(N), StrictMath.pow(N, 1 - s), M);
        double[] lin = new double[M]; lin[0] = s - 1; if (M > 1) lin[1] = 1;
        addTo(tot, divj(e, lin, M), 1);
        double[] ns = expj(-StrictMath.log(N), StrictMath.pow(N, -s), M);
        double[] poch = new double[M]; poch[0] = s; if (M > 1) poch[1] = 1;
        double f = 1;
        for (int k = 1; k <= 12; k++) {
            f *= (2.0 * k - 1) * (2.0 * k);
            addTo(tot, mulj(poch, ns, M), B[k - 1] / f * StrictMath.pow(N, 1 - 2.0 * k));
            for (int j = 2 * k - 1; j <= 2 * k; j++) { double[] l = new double[M]; l[0] = s + j; if (M > 1) l[1] = 1; poch = mulj(poch, l, M); }
        }
        double fact = 1; for (int i = 2; i <= n; i++) fact *= i;
        return tot[n] * fact;
    }
    static double[] expj(double c, double v0, int M) { double[] r = new double[M]; r[0] = v0; for (int i = 1; i < M; i++) r[i] = r[i - 1] * c / i; return r; }
    static void addTo(double[] a, double[] b, double k) { for (int i = 0; i < a.length; i++) a[i] += k * b[i]; }
    static double[] mulj(double[] a, double[] b, int M) { double[] r = new double[M]; for (int i = 0; i < M; i++) for (int j = 0; i + j < M; j++) r[i + j] += a[i] * b[j]; return r; }
    static double[] divj(double[] a, double[] b, int M) { double[] r = new double[M]; for (int i = 0; i < M; i++) { double s = a[i]; for (int j = 1; j <= i; j++) s -= b[j] * r[i - j]; r[i] = s / b[0]; } return r; }

    static double besselj(int n, double x) { int N = 256 + 4 * (int) (Math.abs(x) + Math.abs(n)); double s = 0; for (int k = 0; k < N; k++) { double th = 2 * Math.PI * k / N; s += Math.cos(n * th - x * Math.sin(th)); } return s / N; }
    static double besseli(int n, double x) { int N = 256 + 4 * (int) (Math.abs(x) + Math.abs(n)); double s = 0; for (int k = 0; k < N; k++) { double th = 2 * Math.PI * k / N; s += Math.exp(x * Math.cos(th)) * Math.cos(n * th); } return s / N; }
    static double besselk(int n, double x) { n = Math.abs(n); double h = 1.0 / 128, s = 0.5 * Math.exp(-x); for (int k = 1; k < 4000; k++) { double t = k * h; double e = -x * Math.cosh(t) + n * t; double v = Math.exp(e) * 0.5 * (1 + Math.exp(-2 * n * t)); s += v; if (e < -60 && t > 1) break; } return s * h; }
    static final double[] GX = { 0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717 };
    static final double[] GW = { 0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881 };
    static double quad(F f, double a, double b, int panels) {
        double s = 0, h = (b - a) / panels;
        for (int p = 0; p < panels; p++) { double c = a + (p + 0.5) * h; for (int i = 0; i < 5; i++) s += GW[i] * (f.f(c + GX[i] * h / 2) + f.f(c - GX[i] * h / 2)); }
        return s * h / 2;
    }
    static double bessely(int n0, double x) {
        final int n = Math.abs(n0); double sg = (n0 < 0 && n % 2 == 1) ? -1 : 1;
        double a = quad(th -> Math.sin(x * Math.sin(th) - n * th), 0, Math.PI, 40 + 2 * n + 2 * (int) x);
        double tm = 3; while (-x * Math.sinh(tm) + n * tm > -50) tm += 0.5;
        double b = quad(t -> (Math.exp(n * t - x * Math.sinh(t)) + (n % 2 == 0 ? 1 : -1) * Math.exp(-n * t - x * Math.sinh(t))), 0, tm, 200);
        return sg * (a - b) / Math.PI;
    }
    static double lambertw(double x) {
        double w = x < 1 ? (x < -0.2 ? -1 + Math.sqrt(2 * (Math.E * x + 1)) : x / (1 + x)) : Math.log(x) - (x > 3 ? Math.log(Math.log(x)) : 0);
        for (int i = 0; i < 100; i++) {
            double e = StrictMath.exp(w), f = w * e - x, d = f / (e * (w + 1) - (w + 2) * f / (2 * w + 2));
            w -= d; if (Math.abs(d) < 1e-16 * Math.max(1, Math.abs(w))) break;
        }
        return w;
    }
    static double ellK(double k) { double a = 1, b = Math.sqrt((1 - k) * (1 + k)); for (int i = 0; i < 40; i++) { double t = (a + b) / 2; b = Math.sqrt(a * b); a = t; } return Math.PI / (2 * a); }
    static double ellE(double k) {
        if (Math.abs(k) == 1) return 1;
        double a = 1, b = Math.sqrt((1 - k) * (1 + k)), c = k, s = c * c / 2, p = 1;
        for (int i = 0; i < 30; i++) { double t = (a + b) / 2; c = (a - b) / 2; b = Math.sqrt(a * b); a = t; s += p * c * c; p *= 2; }
        return Math.PI / (2 * a) * (1 - s);
    }
    static IV fun2(String n, IV o, IV a) {
        if (o.tag == 1 || a.tag == 1) return UNDEF;
        if (n.equals("atan2")) {           // atan2(y = o, x = a)
            int t = jt(o, a);
            if (o.lo != o.hi || a.lo != a.hi) {
                if (a.lo <= 0 && o.lo <= 0 && o.hi >= 0) return new IV(2, -3.1415926535897936, 3.1415926535897936);
            }
            if (a.lo == 0 && a.hi == 0 && o.lo == 0 && o.hi == 0) return MAYBE;
            double lo = INF, hi = -INF;
            for (double y : new double[] { o.lo, o.hi }) for (double x : new double[] { a.lo, a.hi }) { double v = StrictMath.atan2(y + 0.0, x + 0.0); lo = Math.min(lo, v); hi = Math.max(hi, v); }
            return mk(t, dn(lo, 3), up(hi, 3));
        }
        if (!exactInt(o) || Math.abs(o.lo) > 60 || Double.isInfinite(a.lo) || Double.isInfinite(a.hi)) return MAYBE;
        int k = (int) o.lo, t = Math.max(o.tag, a.tag);
        if (n.startsWith("bessel") && (Math.abs(a.lo) > 600 || Math.abs(a.hi) > 600)) return MAYBE;
        switch (n) {
            case "polygamma":
                if (k < 0) return UNDEF;
                if (pole(a)) return a.lo == a.hi ? UNDEF : MAYBE;
                if (a.lo < -200 || nearPole(a)) return MAYBE;
                {
                    IV r = smooth(t, a, x -> polygamma(k, x), 1e-12);          // ill-conditioned at negative arguments
                    return a.lo >= 0 ? r : plus(r, 1e-15 * (1 - a.lo) * Math.abs(polygamma(k + 1, 0.5 * (a.lo + a.hi))));
                }
            case "zeta_deriv":
                if (k < 0) return UNDEF;
                if (a.lo <= 1 && a.hi >= 1) return a.lo == a.hi ? UNDEF : MAYBE;
                if (Math.abs(a.lo - 1) < 1e-9 || Math.abs(a.hi - 1) < 1e-9) return MAYBE;
                if (a.lo < (k == 0 ? -20 : -3) || k > 8) return MAYBE;
                return plus(smooth(t, a, x -> k == 0 && x < -0.5 ? zetaRefl(x) : zeta(k, x), 1e-9), 1e-10);
            case "besselj": return plus(smooth(t, a, x -> besselj(k, x), 1e-12), 1e-14);
            case "besseli": return smooth(t, a, x -> besseli(k, x), 1e-11);
            case "bessely": if (a.hi <= 0) return UNDEF; if (a.lo < 1e-3) return MAYBE; return plus(smooth(t, a, x -> bessely(k, x), 1e-11), 1e-13);
            case "besselk": if (a.hi <= 0) return UNDEF; if (a.lo < 1e-3) return MAYBE; return smooth(t, a, x -> besselk(k, x), 1e-11);
            default: throw new RuntimeException("IReal.fun2: unknown " + n);
        }
    }
    static IV plus(IV r, double e) { return r.tag == 1 || Double.isInfinite(r.lo) ? r : new IV(r.tag, r.lo - e, r.hi + e); }

    // ---- exported operators ----------------------------------------------------------------
    @TLAPlusOperator(identifier = "RAdd", module = "IReal", warn = false)
    public static Value rAdd(final Value a, final Value b) { return enc(add(dec(a), dec(b))); }
    @TLAPlusOperator(identifier = "RSub", module = "IReal", warn = false)
    public static Value rSub(final Value a, final Value b) { return enc(add(dec(a), neg(dec(b)))); }
    @TLAPlusOperator(identifier = "RNeg", module = "IReal", warn = false)
    public static Value rNeg(final Value a) { return enc(neg(dec(a))); }
    @TLAPlusOperator(identifier = "RMul", module = "IReal", warn = false)
    public static Value rMul(final Value a, final Value b) { return enc(mul(dec(a), dec(b))); }
    @TLAPlusOperator(identifier = "RDiv", module = "IReal", warn = false)
    public static Value rDiv(final Value a, final Value b) { return enc(div(dec(a), dec(b))); }
    @TLAPlusOperator(identifier = "RPow", module = "IReal", warn = false)
    public static Value rPow(final Value a, final Value b) { return enc(pow(dec(a), dec(b))); }
    @TLAPlusOperator(identifier = "RFun1", module = "IReal", warn = false)
    public static Value rFun1(final Value n, final Value a) { return enc(fun1(str(n), dec(a))); }
    @TLAPlusOperator(identifier = "RFun2", module = "IReal", warn = false)
    public static Value rFun2(final Value n, final Value a, final Value b) { return enc(fun2(str(n), dec(a), dec(b))); }

    /** widen by e * max(|lo|,|hi|, mag) with e = 2^-k */
    @TLAPlusOperator(identifier = "RWiden", module = "IReal", warn = false)
    public static Value rWiden(final Value a, final Value mag, final Value k) {
        IV x = dec(a), g = dec(mag);
        if (x.tag == 1) return a;
        double e = Math.scalb(1.0, -iv(k)) * Math.max(Math.max(Math.abs(x.lo), Math.abs(x.hi)), g.tag == 1 ? 0 : Math.max(Math.abs(g.lo), Math.abs(g.hi)));
        return enc(mk(x.tag, x.lo - e, x.hi + e));
    }
    @TLAPlusOperator(identifier = "RTag", module = "IReal", warn = false)
    public static Value rTag(final Value a) { return IntValue.gen(dec(a).tag); }
    /** no real number lies in both (tags 0 or 2 with bounds) */
    @TLAPlusOperator(identifier = "RDisjoint", module = "IReal", warn = false)
    public static Value rDisjoint(final Value a, final Value b) {
        IV x = dec(a), y = dec(b);
        if (x.tag == 1 || y.tag == 1) return BoolValue.ValFalse;
        // relative slack: never claim a difference below 1e-9 of the magnitude
        double s = 1e-13 + 1e-9 * Math.max(Math.max(Math.abs(x.lo), Math.abs(x.hi)), Math.max(Math.abs(y.lo), Math.abs(y.hi)));
        if (Double.isInfinite(s)) return BoolValue.ValFalse;
        return (x.hi + s < y.lo || y.hi + s < x.lo) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    /** tag 0 and tight enough to be informative */
    @TLAPlusOperator(identifier = "RSharp", module = "IReal", warn = false)
    public static Value rSharp(final Value a) {
        IV x = dec(a);
        if (x.tag != 0) return BoolValue.ValFalse;
        return x.hi - x.lo <= 1e-4 * Math.max(1e-3, Math.max(Math.abs(x.lo), Math.abs(x.hi))) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    /** the double with these bits lies in the interval */
    @TLAPlusOperator(identifier = "RContains", module = "IReal", warn = false)
    public static Value rContains(final Value a, final Value b) {
        IV x = dec(a); double d = bits(str(b));
        return (d >= x.lo && d <= x.hi) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    @TLAPlusOperator(identifier = "RIsFinite", module = "IReal", warn = false)
    public static Value rIsFinite(final Value b) { double d = bits(str(b)); return Double.isNaN(d) || Double.isInfinite(d) ? BoolValue.ValFalse : BoolValue.ValTrue; }
    @TLAPlusOperator(identifier = "RIsNaN", module = "IReal", warn = false)
    public static Value rIsNaN(final Value b) { return Double.isNaN(bits(str(b))) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    /** -1, 0, 1: certainly below / exactly equal / certainly above; 2: unknown */
    @TLAPlusOperator(identifier = "RCmp", module = "IReal", warn = false)
    public static Value rCmp(final Value a, final Value b) {
        IV x = dec(a), y = dec(b);
        if (x.tag != 0 || y.tag != 0) return IntValue.gen(2);
        if (x.hi < y.lo) return IntValue.gen(-1);
        if (x.lo > y.hi) return IntValue.gen(1);
        return IntValue.gen(x.lo == x.hi && y.lo == y.hi ? 0 : 2);
    }
    @TLAPlusOperator(identifier = "RShow", module = "IReal", warn = false)
    public static Value rShow(final Value a) {
        IV x = dec(a);
        return new StringValue(x.tag == 1 ? "undefined" : (x.tag == 2 ? "maybe " : "") + "[" + x.lo + "," + x.hi + "]");
    }
    @TLAPlusOperator(identifier = "RShowBits", module = "IReal", warn = false)
    public static Value rShowBits(final Value b) { return new StringValue(Double.toString(bits(str(b)))); }
    /** bits of two doubles denote the same number (or are both NaN) */
    @TLAPlusOperator(identifier = "RSameBits", module = "IReal", warn = false)
    public static Value rSameBits(final Value a, final Value b) {
        double x = bits(str(a)), y = bits(str(b));
        return (x == y || (Double.isNaN(x) && Double.isNaN(y))) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    /** two doubles agree to 2^-k relative (k-bit), or both NaN, or the same infinity */
    @TLAPlusOperator(identifier = "RCloseBits", module = "IReal", warn = false)
    public static Value rCloseBits(final Value a, final Value b, final Value k) {
        double x = bits(str(a)), y = bits(str(b));
        if (x == y || (Double.isNaN(x) && Double.isNaN(y))) return BoolValue.ValTrue;
        return Math.abs(x - y) <= Math.scalb(1.0, -iv(k)) * Math.max(1.0 / 16, Math.max(Math.abs(x), Math.abs(y))) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    /** integer value of a literal if it is a small integer, else the default */
    @TLAPlusOperator(identifier = "RIntOf", module = "IReal", warn = false)
    public static Value rIntOf(final Value a, final Value dflt) {
        IV x = dec(a);
        return x.tag == 0 && exactInt(x) && Math.abs(x.lo) < 1e9 ? IntValue.gen((int) x.lo) : dflt;
    }
    /** deterministic pseudo-random choice in 0..n-1 from (seed, path) */
    @TLAPlusOperator(identifier = "Pick", module = "IReal", warn = false)
    public static Value pick(final Value seed, final Value tag, final Value n) {
        long h = mix(iv(seed) * 0x9E3779B97F4A7C15L + iv(tag) * 0xC2B2AE3D27D4EB4FL + 0x165667B19E3779F9L);
        return IntValue.gen((int) Long.remainderUnsigned(h, iv(n)));
    }
    @TLAPlusOperator(identifier = "Split", module = "IReal", warn = false)
    public static Value split(final Value seed, final Value tag) {
        long h = mix(iv(seed) * 0xD6E8FEB86659FD93L + iv(tag) * 0xA0761D6478BD642FL + 77);
        return IntValue.gen((int) (h >>> 33));
    }
    static long mix(long z) { z ^= z >>> 30; z *= 0xBF58476D1CE4E5B9L; z ^= z >>> 27; z *= 0x94D049BB133111EBL; z ^= z >>> 31; z *= 0xBF58476D1CE4E5B9L; return z ^ (z >>> 29); }
    /** a fixed hash of a string */
    @TLAPlusOperator(identifier = "HashS", module = "IReal", warn = false)
    public static Value hashS(final Value s) {
        long h = 1125899906842597L;
        for (char c : str(s).toCharArray()) h = 31 * h + c;
        return IntValue.gen((int) (mix(h) >>> 33));
    }
    /** the characters of a string as a sequence of one-character strings */
    @TLAPlusOperator(identifier = "Chars", module = "IReal", warn = false)
    public static Value chars(final Value s) {
        String t = str(s); int n = t.codePointCount(0, t.length()); Value[] v = new Value[n];
        for (int i = 0, j = 0; i < n; i++) { int cp = t.codePointAt(j); v[i] = new StringValue(new String(Character.toChars(cp))); j += Character.charCount(cp); }
        return new TupleValue(v);
    }
    @TLAPlusOperator(identifier = "Join", module = "IReal", warn = false)
    public static Value join(final Value s) {
        TupleValue t = (TupleValue) s.toTuple(); StringBuilder b = new StringBuilder();
        for (Value e : t.elems) b.append(str(e));
        return new StringValue(b.toString());
    }
    /** class of a character: blank (ASCII white space), digit (ASCII), alpha, num (other numeric characters), other */
    @TLAPlusOperator(identifier = "CharClass", module = "IReal", warn = false)
    public static Value charClass(final Value s) {
        int c = str(s).codePointAt(0);
        String k = " \t\n\r\f".indexOf(c) >= 0 ? "blank" : c >= '0' && c <= '9' ? "digit" : Character.isAlphabetic(c) ? "alpha" : isNum(c) ? "num" : "other";
        return new StringValue(k);
    }
    static boolean isNum(int c) {
        int t = Character.getType(c);
        return t == Character.DECIMAL_DIGIT_NUMBER || t == Character.LETTER_NUMBER || t == Character.OTHER_NUMBER;
    }
    /** the one-character string of a code point */
    @TLAPlusOperator(identifier = "Uni", module = "IReal", warn = false)
    public static Value uni(final Value n) { return new StringValue(new String(Character.toChars(((IntValue) n).val))); }
}
