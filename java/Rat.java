// TLC implementation of the operators of spec/Rat.tla: exact rational numbers
// of unbounded size, written as TLA+ strings "n" or "n/d" (lowest terms), read
// also as C99 hexadecimal floating-point literals ("0x1.8p+3"), decimal
// integers, and TLA+ integers. Transcendental functions are evaluated to at
// least 2^-200 relative/absolute accuracy and returned as dyadic rationals.
import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;

public class Rat {
    static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO, TWO = BigInteger.TWO;

    static final class Q {
        final BigInteger n, d;                     // d > 0, gcd(n,d) = 1
        Q(BigInteger n, BigInteger d) {
            if (d.signum() == 0) { this.n = ONE; this.d = ZERO; return; }      // nan
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g;
            int tz = Math.min(n.signum() == 0 ? Integer.MAX_VALUE : n.getLowestSetBit(), d.getLowestSetBit());
            if (n.signum() == 0) { d = ONE; }
            else {
                if (tz > 0) { n = n.shiftRight(tz); d = d.shiftRight(tz); }
                if (d.bitCount() != 1) {
                    g = n.gcd(d);
                    if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
                }
            }
            this.n = n; this.d = d;
        }
        Q(BigInteger n) { this.n = n; this.d = ONE; }
        boolean nan() { return d.signum() == 0; }
        Q add(Q o) { if (nan() || o.nan()) return NAN; return d.equals(o.d) ? new Q(n.add(o.n), d) : new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
        Q neg() { if (nan()) return NAN; return new Q(n.negate(), d); }
        Q sub(Q o) { return add(o.neg()); }
        Q mul(Q o) { if (nan() || o.nan()) return NAN; return new Q(n.multiply(o.n), d.multiply(o.d)); }
        Q div(Q o) { if (nan() || o.nan()) return NAN; return new Q(n.multiply(o.d), d.multiply(o.n)); }
        Q abs() { return n.signum() < 0 ? neg() : this; }
        int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
        BigInteger floor() { BigInteger[] qr = n.divideAndRemainder(d); return qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0]; }
        public String toString() { return nan() ? "nan" : d.equals(ONE) ? hexs(n) : hexs(n) + "/" + hexs(d); }
    }
    static String hexs(BigInteger x) {               // BigInteger.toString(16) is quadratic
        if (x.bitLength() < 63) return Long.toString(x.longValue(), 16);
        byte[] a = x.abs().toByteArray();
        StringBuilder r = new StringBuilder(2 * a.length + 1);
        if (x.signum() < 0) r.append('-');
        boolean lead = true;
        for (byte v : a) for (int k = 4; k >= 0; k -= 4) {
            int h = (v >> k) & 15;
            if (lead && h == 0) continue;
            lead = false;
            r.append(Character.forDigit(h, 16));
        }
        return r.toString();
    }
    static final Q NAN = new Q(ONE, ZERO);

    static final int CAP = 1 << 16;
    static final Map<String, Q> cache = Collections.synchronizedMap(new LinkedHashMap<String, Q>(CAP, 0.75f, false) {
        protected boolean removeEldestEntry(Map.Entry<String, Q> e) { return size() > CAP; }
    });

    static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val));
        if (v instanceof RV) return ((RV) v).r;
        String s = ((StringValue) v).val.toString();
        Q r = cache.get(s);
        if (r == null) { r = parse(s); cache.put(s, r); }
        return r;
    }

    // "d:123" decimal integer, "0x..p.." hex float, otherwise radix-16 "n" or "n/d"
    static Q parse(String s) {
        if (s.startsWith("d:")) return new Q(new BigInteger(s.substring(2)));
        boolean neg = s.startsWith("-");
        String t = neg ? s.substring(1) : s;
        if (t.startsWith("0x") || t.startsWith("0X")) {
            int p = t.indexOf('p'); if (p < 0) p = t.indexOf('P');
            int e = Integer.parseInt(t.charAt(p + 1) == '+' ? t.substring(p + 2) : t.substring(p + 1));
            String m = t.substring(2, p);
            int dot = m.indexOf('.');
            if (dot >= 0) { e -= 4 * (m.length() - dot - 1); m = m.substring(0, dot) + m.substring(dot + 1); }
            BigInteger n = new BigInteger(m, 16);
            if (neg) n = n.negate();
            return e >= 0 ? new Q(n.shiftLeft(e)) : new Q(n, ONE.shiftLeft(-e));
        }
        if (t.contains("inf") || t.contains("nan")) return NAN;
        int sl = s.indexOf('/');
        return sl < 0 ? new Q(new BigInteger(s, 16)) : new Q(new BigInteger(s.substring(0, sl), 16), new BigInteger(s.substring(sl + 1), 16));
    }

    // a rational as a TLC value
    static final class RV extends UserValue {
        final Q r;
        RV(Q r) { super(new Obj(r)); this.r = r; }
        public long fingerPrint(long fp) { return new StringValue(r.toString()).fingerPrint(fp); }
        public tlc2.value.IValue permute(tlc2.value.IMVPerm perm) { return this; }
    }
    static final class Obj extends UserObj {
        final Q r;
        Obj(Q r) { this.r = r; }
        public int compareTo(Value o) { Q x = ((RV) o).r; if (r.nan() || x.nan()) return r.nan() ? (x.nan() ? 0 : 1) : -1; return r.cmp(x); }
        public boolean member(Value o, boolean b) { return false; }
        public boolean member(Value o) { return false; }
        public boolean isFinite() { return true; }
        public StringBuffer toString(StringBuffer b, int i, boolean q) { return b.append('"').append(r.toString()).append('"'); }
    }
    static Value v(Q r) { return new RV(r); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Q two(int e) { return e >= 0 ? new Q(ONE.shiftLeft(e)) : new Q(ONE, ONE.shiftLeft(-e)); }

    // --- operators of the module -------------------------------------------

    public static Value RFin(Value a) {
        if (a instanceof IntValue) return b(true);
        if (a instanceof RV) return b(!((RV) a).r.nan());
        String s = ((StringValue) a).val.toString();
        return b(!(s.contains("inf") || s.contains("nan")));
    }
    public static Value R(Value a) { return v(q(a)); }
    public static Value RAdd(Value a, Value c) { return v(q(a).add(q(c))); }
    public static Value RSub(Value a, Value c) { return v(q(a).sub(q(c))); }
    public static Value RMul(Value a, Value c) { return v(q(a).mul(q(c))); }
    public static Value RDiv(Value a, Value c) { return v(q(a).div(q(c))); }
    public static Value RNeg(Value a) { return v(q(a).neg()); }
    public static Value RAbs(Value a) { return v(q(a).abs()); }
    public static Value RMax(Value a, Value c) { Q x = q(a), y = q(c); if (x.nan() || y.nan()) return v(NAN); return v(x.cmp(y) >= 0 ? x : y); }
    public static Value RMin(Value a, Value c) { Q x = q(a), y = q(c); if (x.nan() || y.nan()) return v(NAN); return v(x.cmp(y) <= 0 ? x : y); }
    public static Value RLe(Value a, Value c) { Q x = q(a), y = q(c); return b(!x.nan() && !y.nan() && x.cmp(y) <= 0); }
    public static Value RLt(Value a, Value c) { Q x = q(a), y = q(c); return b(!x.nan() && !y.nan() && x.cmp(y) < 0); }
    public static Value REq(Value a, Value c) { Q x = q(a), y = q(c); return b(!x.nan() && !y.nan() && x.cmp(y) == 0); }
    public static Value RSign(Value a) { return IntValue.gen(q(a).n.signum()); }
    public static Value RFloor(Value a) { Q x = q(a); return v(x.nan() ? NAN : new Q(x.floor())); }
    public static Value RTrunc(Value a) { Q x = q(a); if (x.nan()) return v(NAN); return v(new Q(x.n.divide(x.d))); }
    public static Value RPow2(Value e) { return v(two(((IntValue) e).val)); }
    public static Value RInt(Value a) { Q x = q(a); if (!x.d.equals(ONE)) throw new RuntimeException("RInt: not an integer"); return IntValue.gen(x.n.intValueExact()); }
    public static Value RIsInt(Value a) { return b(q(a).d.equals(ONE)); }
    // |a-c| <= 2^-k * m
    public static Value RNear(Value a, Value c, Value k, Value m) {
        Q x = q(a).sub(q(c)), y = q(m);
        return b(!x.nan() && !y.nan() && x.abs().cmp(y.abs().mul(two(-((IntValue) k).val))) <= 0);
    }
    // a dyadic rational at least |a| and at most |a| (1 + 2^-30), for magnitudes
    public static Value RUp(Value a) { return v(up(q(a).abs())); }
    static Q up(Q a) {
        if (a.nan() || a.n.signum() == 0) return a;
        int s = 32 - (a.n.bitLength() - a.d.bitLength());
        BigInteger t = s >= 0 ? a.n.shiftLeft(s).divide(a.d) : a.n.divide(a.d.shiftLeft(-s));
        return new Q(t.add(ONE)).mul(two(-s));
    }
    // a dyadic rational within 2^-k of a
    public static Value RTrim(Value a, Value k) {
        Q x = q(a); int s = ((IntValue) k).val;
        if (x.nan() || x.d.bitLength() <= s) return v(x);
        return v(new Q(x.n.shiftLeft(s).divide(x.d)).mul(two(-s)));
    }
    // decimal approximation for messages
    public static Value RStr(Value a) {
        if (RFin(a) == BoolValue.ValFalse) return new StringValue("nan");
        Q x = q(a);
        return new StringValue(new java.math.BigDecimal(x.n).divide(new java.math.BigDecimal(x.d), new java.math.MathContext(20)).toString());
    }
    // sum over i of f[i]*g[i] for sequences
    public static Value RDot(Value f, Value g) {
        TupleValue x = (TupleValue) f.toTuple(), y = (TupleValue) g.toTuple();
        Q s = new Q(ZERO);
        if (x.elems.length != y.elems.length) return v(NAN);
        for (int i = 0; i < x.elems.length; ++i) s = s.add(q(x.elems[i]).mul(q(y.elems[i])));
        return v(s);
    }

    // --- transcendental functions, fixed-point with PREC fraction bits -----

    static final int PREC = 320;
    static final BigInteger FONE = ONE.shiftLeft(PREC);
    static BigInteger fx(Q a) { return a.n.shiftLeft(PREC).divide(a.d); }
    static Q unfx(BigInteger f) { return new Q(f, FONE); }
    static BigInteger fmul(BigInteger a, BigInteger b) { return a.multiply(b).shiftRight(PREC); }
    static BigInteger fdiv(BigInteger a, BigInteger b) { return a.shiftLeft(PREC).divide(b); }
    static BigInteger PI;
    static BigInteger atanInv(int n) {               // atan(1/n)
        BigInteger t = FONE.divide(BigInteger.valueOf(n)), s = t, n2 = BigInteger.valueOf((long) n * n);
        for (int k = 3; t.signum() != 0; k += 2) {
            t = t.divide(n2).negate();
            s = s.add(t.divide(BigInteger.valueOf(k)));
        }
        return s;
    }
    static BigInteger pi() {
        if (PI == null) PI = atanInv(5).multiply(BigInteger.valueOf(16)).subtract(atanInv(239).multiply(BigInteger.valueOf(4)));
        return PI;
    }
    static BigInteger fsin(BigInteger x) {           // |x| moderate
        BigInteger t = x, s = x, x2 = fmul(x, x);
        for (long k = 1; t.signum() != 0 && !t.equals(BigInteger.valueOf(-1)); ++k) {
            t = fmul(t, x2).divide(BigInteger.valueOf((2 * k) * (2 * k + 1))).negate();
            s = s.add(t);
        }
        return s;
    }
    static BigInteger fcos(BigInteger x) {
        BigInteger t = FONE, s = FONE, x2 = fmul(x, x);
        for (long k = 1; t.signum() != 0 && !t.equals(BigInteger.valueOf(-1)); ++k) {
            t = fmul(t, x2).divide(BigInteger.valueOf((2 * k - 1) * (2 * k))).negate();
            s = s.add(t);
        }
        return s;
    }
    static BigInteger fexpSmall(BigInteger x) {
        BigInteger t = FONE, s = FONE;
        for (long k = 1; t.signum() != 0 && !t.equals(BigInteger.valueOf(-1)); ++k) {
            t = fmul(t, x).divide(BigInteger.valueOf(k));
            s = s.add(t);
        }
        return s;
    }
    static BigInteger LN2;
    static BigInteger ln2() {                        // ln 2 = 18 atanh(1/26) - 2 atanh(1/4801) + 8 atanh(1/8749)
        if (LN2 == null) LN2 = atanhInv(26).multiply(BigInteger.valueOf(18)).subtract(atanhInv(4801).multiply(TWO)).add(atanhInv(8749).multiply(BigInteger.valueOf(8)));
        return LN2;
    }
    static BigInteger atanhInv(int n) {
        BigInteger t = FONE.divide(BigInteger.valueOf(n)), s = t, n2 = BigInteger.valueOf((long) n * n);
        for (int k = 3; t.signum() != 0; k += 2) { t = t.divide(n2); s = s.add(t.divide(BigInteger.valueOf(k))); }
        return s;
    }
    static Q exp(Q x) { if (x.nan()) return NAN;                             // exp(x) = 2^k exp(r)
        BigInteger f = fx(x);
        BigInteger k = f.divide(ln2());
        BigInteger r = f.subtract(k.multiply(ln2()));
        return unfx(fexpSmall(r)).mul(two(k.intValueExact()));
    }
    static BigInteger LN10;
    static BigInteger ln10() {                       // ln 10 = 46 atanh(1/31)+34 atanh(1/49)+20 atanh(1/161)
        if (LN10 == null) LN10 = atanhInv(31).multiply(BigInteger.valueOf(46)).add(atanhInv(49).multiply(BigInteger.valueOf(34))).add(atanhInv(161).multiply(BigInteger.valueOf(20)));
        return LN10;
    }
    static Q reduce(Q turns) { return turns.sub(new Q(turns.floor())); }   // into [0,1)

    public static Value RPi() { return v(unfx(pi())); }
    // sin and cos of 2 pi t
    public static Value RSin2Pi(Value t) { if (q(t).nan()) return v(NAN); return v(unfx(fsin(fmul(fx(reduce(q(t))), pi().shiftLeft(1))))); }
    public static Value RCos2Pi(Value t) { if (q(t).nan()) return v(NAN); return v(unfx(fcos(fmul(fx(reduce(q(t))), pi().shiftLeft(1))))); }
    // tan( pi t )
    public static Value RTanPi(Value t) {
        if (q(t).nan()) return v(NAN);
        BigInteger a = fmul(fx(q(t)), pi());
        return v(unfx(fdiv(fsin(a), fcos(a))));
    }
    public static Value RExp(Value x) { return v(exp(q(x))); }
    public static Value RPow10(Value x) { return v(exp(q(x).mul(unfx(ln10())))); }
    public static Value RSqrt(Value x) {
        Q a = q(x);
        if (a.nan() || a.n.signum() < 0) return v(NAN);
        if (a.n.signum() == 0) return v(a);
        int s = Math.max(0, PREC + (a.d.bitLength() - a.n.bitLength()) / 2 + 1);
        BigInteger r = a.n.shiftLeft(2 * s).divide(a.d).sqrt();
        return v(new Q(r, ONE.shiftLeft(s)));
    }
    // does the observed text t print the number a (its shortest/6-digit form)?
    public static Value RParseDec(Value t) {
        try {
            java.math.BigDecimal d = new java.math.BigDecimal(((StringValue) t).val.toString());
            BigInteger u = d.unscaledValue();
            return v(d.scale() >= 0 ? new Q(u, BigInteger.TEN.pow(d.scale())) : new Q(u.multiply(BigInteger.TEN.pow(-d.scale()))));
        } catch (NumberFormatException e) { return v(NAN); }
    }
}
