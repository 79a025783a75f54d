package verif;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.LinkedHashMap;
import java.util.Map;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Exact rational arithmetic for the specification (module Rat).
 *
 * A rational is a canonical string "n" or "n/d" (d > 1, gcd 1); "nan", "inf", "-inf" are the
 * special values.  Any arithmetic on a special value gives "nan"; x/0 gives "nan".
 */
public final class RatOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    public Class[] get() { return new Class[] { RatOverrides.class }; }

    static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;

    static final class Q {
        final BigInteger n, d;          // d > 0, or null for a special value
        final String special;
        Q(BigInteger n, BigInteger d) {
            special = null;
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            if (!d.equals(ONE)) {
                BigInteger g = n.gcd(d);
                if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
            }
            this.n = n; this.d = d;
        }
        Q(String s) { special = s; n = null; d = null; }
        boolean fin() { return special == null; }
        public String toString() {
            if (special != null) return special;
            return d.equals(ONE) ? n.toString() : n.toString() + "/" + d.toString();
        }
        int cmp(Q o) {
            if (d.equals(o.d)) return n.compareTo(o.n);
            int s = n.signum(), t = o.n.signum();
            if (s != t) return Integer.compare(s, t);
            return n.multiply(o.d).compareTo(o.n.multiply(d));
        }
        Q add(Q o) { return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
        Q sub(Q o) { return new Q(n.multiply(o.d).subtract(o.n.multiply(d)), d.multiply(o.d)); }
        Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
        Q div(Q o) { return new Q(n.multiply(o.d), d.multiply(o.n)); }
        Q abs() { return new Q(n.abs(), d); }
        int sgn() { return n.signum(); }
        /** nearest double */
        double dbl() {
            if (!fin()) return special.equals("inf") ? Double.POSITIVE_INFINITY
                             : special.equals("-inf") ? Double.NEGATIVE_INFINITY : Double.NaN;
            if (n.signum() == 0) return 0.0;
            return new BigDecimal(n).divide(new BigDecimal(d), new MathContext(60)).doubleValue();
        }
    }

    static final Q NAN = new Q("nan");
    static final int CACHE = 1 << 16;
    static final ThreadLocal<LinkedHashMap<String, Q>> cache = ThreadLocal.withInitial(() ->
        new LinkedHashMap<String, Q>(1024, 0.75f, true) {
            protected boolean removeEldestEntry(Map.Entry<String, Q> e) { return size() > CACHE; }
        });

    static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), ONE);
        if (!(v instanceof StringValue)) return NAN;          // not a number at all
        String s = ((StringValue) v).val.toString();
        LinkedHashMap<String, Q> c = cache.get();
        Q r = c.get(s);
        if (r == null) {
            try { r = parse(s); } catch (RuntimeException e) { r = NAN; }   // "throw", "crash", ...
            c.put(s, r);
        }
        return r;
    }

    static Q parse(String s) {
        s = s.trim();
        if (s.isEmpty()) throw new IllegalArgumentException("Rat: empty number");
        String l = s.toLowerCase();
        if (l.endsWith("nan") || l.startsWith("nan") || l.startsWith("-nan")) return NAN;
        if (l.equals("inf") || l.equals("+inf") || l.equals("infinity")) return new Q("inf");
        if (l.equals("-inf") || l.equals("-infinity")) return new Q("-inf");
        if (l.startsWith("0x") || l.startsWith("-0x") || l.startsWith("+0x")) return parseHex(l);
        int i = s.indexOf('/');
        if (i >= 0) return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        if (l.indexOf('.') >= 0 || l.indexOf('e') >= 0) return ofDec(new BigDecimal(s));
        return new Q(new BigInteger(s), ONE);
    }

    static Q ofDec(BigDecimal b) {
        if (b.scale() <= 0) return new Q(b.toBigIntegerExact(), ONE);
        return new Q(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
    }

    /** C hexadecimal floating constant, as printed by %a or %La. */
    static Q parseHex(String l) {
        boolean neg = l.startsWith("-");
        l = l.substring(l.indexOf('x') + 1);
        int p = l.indexOf('p');
        int e = 0;
        if (p >= 0) { e = Integer.parseInt(l.substring(p + 1).replace("+", "")); l = l.substring(0, p); }
        int dot = l.indexOf('.');
        String digits = l;
        if (dot >= 0) { digits = l.substring(0, dot) + l.substring(dot + 1); e -= 4 * (l.length() - dot - 1); }
        BigInteger m = new BigInteger(digits, 16);
        if (neg) m = m.negate();
        return e >= 0 ? new Q(m.shiftLeft(e), ONE) : new Q(m, ONE.shiftLeft(-e));
    }

    static StringValue sv(Q r) { return new StringValue(r.toString()); }
    static Q ofDouble(double x) {
        if (Double.isNaN(x)) return NAN;
        if (Double.isInfinite(x)) return new Q(x > 0 ? "inf" : "-inf");
        return ofDec(new BigDecimal(x));
    }

    @TLAPlusOperator(identifier = "R", module = "Rat", warn = false)
    public static Value R(Value a) { return sv(q(a)); }

    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value RAdd(Value a, Value b) { Q x = q(a), y = q(b); return sv(x.fin() && y.fin() ? x.add(y) : NAN); }

    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value RSub(Value a, Value b) { Q x = q(a), y = q(b); return sv(x.fin() && y.fin() ? x.sub(y) : NAN); }

    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value RMul(Value a, Value b) { Q x = q(a), y = q(b); return sv(x.fin() && y.fin() ? x.mul(y) : NAN); }

    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value RDiv(Value a, Value b) {
        Q x = q(a), y = q(b);
        return sv(x.fin() && y.fin() && y.sgn() != 0 ? x.div(y) : NAN);
    }

    @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
    public static Value RNeg(Value a) { Q x = q(a); return sv(x.fin() ? new Q(x.n.negate(), x.d) : NAN); }

    @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
    public static Value RAbs(Value a) { Q x = q(a); return sv(x.fin() ? x.abs() : NAN); }

    @TLAPlusOperator(identifier = "RPow", module = "Rat", warn = false)
    public static Value RPow(Value a, Value k) {
        Q x = q(a); int n = ((IntValue) k).val;
        if (!x.fin()) return sv(NAN);
        if (n >= 0) return sv(new Q(x.n.pow(n), x.d.pow(n)));
        return sv(x.sgn() == 0 ? NAN : new Q(x.d.pow(-n), x.n.pow(-n)));
    }

    /** comparison of finite values; every comparison that involves "nan" is FALSE, as in IEEE 754 */
    static Integer cmp(Value a, Value b) {
        Q x = q(a), y = q(b);
        if (x == NAN || y == NAN) return null;
        if (x.fin() && y.fin()) return x.cmp(y);
        int s = x.fin() ? 0 : x.special.equals("inf") ? 1 : -1;
        int t = y.fin() ? 0 : y.special.equals("inf") ? 1 : -1;
        return Integer.compare(s, t);
    }

    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value RLt(Value a, Value b) { Integer c = cmp(a, b); return c != null && c < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value RLe(Value a, Value b) { Integer c = cmp(a, b); return c != null && c <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "REq", module = "Rat", warn = false)
    public static Value REq(Value a, Value b) { Integer c = cmp(a, b); return c != null && c == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "RSgn", module = "Rat", warn = false)
    public static Value RSgn(Value a) { return IntValue.gen(q(a).sgn()); }

    @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
    public static Value RFloor(Value a) {
        Q x = q(a);
        BigInteger[] dr = x.n.divideAndRemainder(x.d);
        BigInteger r = dr[1].signum() < 0 ? dr[0].subtract(ONE) : dr[0];
        return IntValue.gen(r.intValueExact());
    }

    @TLAPlusOperator(identifier = "RCeil", module = "Rat", warn = false)
    public static Value RCeil(Value a) {
        Q x = q(a);
        BigInteger[] dr = x.n.divideAndRemainder(x.d);
        BigInteger r = dr[1].signum() > 0 ? dr[0].add(ONE) : dr[0];
        return IntValue.gen(r.intValueExact());
    }

    /** truncation towards zero, as C's conversion of a floating value to an integer; stays a rational */
    @TLAPlusOperator(identifier = "RTrunc", module = "Rat", warn = false)
    public static Value RTrunc(Value a) { Q x = q(a); return sv(x.fin() ? new Q(x.n.divide(x.d), ONE) : NAN); }

    /** round to k significant bits (to nearest, ties away) */
    @TLAPlusOperator(identifier = "RRound", module = "Rat", warn = false)
    public static Value RRound(Value a, Value k) {
        Q x = q(a);
        if (!x.fin() || x.n.signum() == 0) return sv(x);
        return sv(round(x, ((IntValue) k).val));
    }

    static Q round(Q x, int bits) {
        int e = x.n.abs().bitLength() - x.d.bitLength() - bits;   // scale so that the quotient has ~bits bits
        BigInteger num = x.n, den = x.d;
        if (e < 0) num = num.shiftLeft(-e); else den = den.shiftLeft(e);
        BigInteger two = BigInteger.TWO;
        BigInteger r = num.abs().multiply(two).add(den).divide(den.multiply(two));
        if (num.signum() < 0) r = r.negate();
        return e >= 0 ? new Q(r.shiftLeft(e), ONE) : new Q(r, ONE.shiftLeft(-e));
    }

    /** nearest IEEE double (its exact value) */
    @TLAPlusOperator(identifier = "RDbl", module = "Rat", warn = false)
    public static Value RDbl(Value a) { return sv(ofDouble(q(a).dbl())); }

    /** nearest IEEE single (its exact value) */
    @TLAPlusOperator(identifier = "RFlt", module = "Rat", warn = false)
    public static Value RFlt(Value a) {
        Q x = q(a);
        if (!x.fin()) return sv(x);
        float f = x.n.signum() == 0 ? 0f : new BigDecimal(x.n).divide(new BigDecimal(x.d), new MathContext(60)).floatValue();
        return sv(ofDouble(f));
    }

    /** square root to 40 decimal digits; nan for a negative argument */
    @TLAPlusOperator(identifier = "RSqrt", module = "Rat", warn = false)
    public static Value RSqrt(Value a) {
        Q x = q(a);
        if (!x.fin() || x.sgn() < 0) return sv(NAN);
        if (x.sgn() == 0) return sv(x);
        MathContext mc = new MathContext(40);
        return sv(ofDec(new BigDecimal(x.n).divide(new BigDecimal(x.d), mc).sqrt(mc)));
    }

    /** x^y for real y, to double accuracy */
    @TLAPlusOperator(identifier = "RPowR", module = "Rat", warn = false)
    public static Value RPowR(Value a, Value b) {
        Q x = q(a), y = q(b);
        if (!x.fin() || !y.fin()) return sv(NAN);
        return sv(ofDouble(Math.pow(x.dbl(), y.dbl())));
    }

    static boolean within(Q x, Q y, Q bound) { return x.sub(y).abs().cmp(bound) <= 0; }

    /** |a - b| <= tol * scale ; "nan" is near only "nan", infinities only themselves */
    @TLAPlusOperator(identifier = "RNear", module = "Rat", warn = false)
    public static Value RNear(Value a, Value b, Value tol, Value scale) {
        Q x = q(a), y = q(b);
        if (!x.fin() || !y.fin()) return x.toString().equals(y.toString()) ? BoolValue.ValTrue : BoolValue.ValFalse;
        return within(x, y, q(tol).mul(q(scale)).abs()) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    /** a finite number */
    @TLAPlusOperator(identifier = "RFin", module = "Rat", warn = false)
    public static Value RFin(Value a) { return q(a).fin() ? BoolValue.ValTrue : BoolValue.ValFalse; }

    /** a sequence, as opposed to a single value */
    @TLAPlusOperator(identifier = "IsList", module = "Rat", warn = false)
    public static Value IsList(Value a) { return a instanceof StringValue || a instanceof IntValue ? BoolValue.ValFalse : BoolValue.ValTrue; }

    @TLAPlusOperator(identifier = "RStr", module = "Rat", warn = false)
    public static Value RStr(Value a) { Q x = q(a); return new StringValue(Double.toString(x.dbl())); }

    /** sum of the first k powers is frequent enough to be done in one go: <<n, Sx, Sx^2, ..., Sx^k>> */
    @TLAPlusOperator(identifier = "RPowSums", module = "Rat", warn = false)
    public static Value RPowSums(Value seq, Value kk) {
        TupleValue t = (TupleValue) seq.toTuple();
        int k = ((IntValue) kk).val;
        Q[] s = new Q[k + 1];
        for (int i = 0; i <= k; i++) s[i] = new Q(ZERO, ONE);
        for (Value v : t.elems) {
            Q x = q(v), p = new Q(ONE, ONE);
            for (int i = 0; i <= k; i++) { s[i] = s[i].add(p); p = p.mul(x); }
        }
        Value[] r = new Value[k + 1];
        for (int i = 0; i <= k; i++) r[i] = sv(s[i]);
        return new TupleValue(r);
    }

    /** deterministic pseudo-random number in 0..n-1 from a seed string and a position */
    @TLAPlusOperator(identifier = "Hash", module = "Rat", warn = false)
    public static Value Hash(Value seed, Value i, Value j, Value n) {
        long h = 0x9E3779B97F4A7C15L;
        for (long v : new long[] { ((IntValue) seed).val, ((IntValue) i).val, ((IntValue) j).val }) {
            h ^= v + 0x632BE59BD9B4E019L;
            h ^= h >>> 30; h *= 0xBF58476D1CE4E5B9L;
            h ^= h >>> 27; h *= 0x94D049BB133111EBL;
            h ^= h >>> 31;
        }
        return IntValue.gen((int) Math.floorMod(h >>> 3, (long) ((IntValue) n).val));
    }
}
