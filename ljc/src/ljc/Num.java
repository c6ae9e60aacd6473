package ljc;

import java.math.*;

/** Clojure's arithmetic. */
final class Num {
    // categories
    static final int L = 0, B = 1, R = 2, D = 3, F = 4;      // long, big, ratio, decimal, double
    static int cat(Object x) {
        if (x instanceof Long || x instanceof Integer || x instanceof Short || x instanceof Byte) return L;
        if (x instanceof BigInteger) return B;
        if (x instanceof Ratio) return R;
        if (x instanceof BigDecimal) return D;
        if (x instanceof Double || x instanceof Float) return F;
        if (x == null) throw new NullPointerException("Cannot invoke \"Object.getClass()\" because \"x\" is null");
        throw new ClassCastException("class " + x.getClass().getName() + " cannot be cast to class java.lang.Number");
    }
    static BigInteger big(Object x) { return x instanceof BigInteger ? (BigInteger) x : BigInteger.valueOf(((Number) x).longValue()); }
    static BigDecimal dec(Object x) {
        if (x instanceof BigDecimal) return (BigDecimal) x;
        if (x instanceof BigInteger) return new BigDecimal((BigInteger) x);
        if (x instanceof Ratio) { Ratio r = (Ratio) x; return new BigDecimal(r.num).divide(new BigDecimal(r.den)); }
        if (x instanceof Double || x instanceof Float) return new BigDecimal(((Number) x).doubleValue());
        return BigDecimal.valueOf(((Number) x).longValue());
    }
    static Ratio ratio(Object x) { return x instanceof Ratio ? (Ratio) x : new Ratio(big(x), BigInteger.ONE); }
    static double dbl(Object x) { return ((Number) x).doubleValue(); }
    static long lng(Object x) { return ((Number) x).longValue(); }
    static Object reduce(BigInteger b) { return b; }     // a BigInt stays one
    static Object frac(BigInteger n, BigInteger d) {
        if (d.signum() == 0) throw new ArithmeticException("Divide by zero");
        BigInteger g = n.gcd(d);
        if (g.signum() == 0) return BigInteger.ZERO;
        n = n.divide(g); d = d.divide(g);
        if (d.equals(BigInteger.ONE)) return n.bitLength() < 64 ? (Object) n.longValue() : n;
        if (d.equals(BigInteger.ONE.negate())) { n = n.negate(); return n.bitLength() < 64 ? (Object) n.longValue() : n; }
        return d.signum() < 0 ? new Ratio(n.negate(), d.negate()) : new Ratio(n, d);
    }
    static MathContext mc() { Object m = RT.MATH_CONTEXT.deref(); return (MathContext) m; }
    static Object add(Object x, Object y) {
        switch (Math.max(cat(x), cat(y))) {
            case L: return addExact(lng(x), lng(y));
            case B: return reduce(big(x).add(big(y)));
            case R: { Ratio a = ratio(x), b = ratio(y); return frac(a.num.multiply(b.den).add(b.num.multiply(a.den)), a.den.multiply(b.den)); }
            case D: return mc() == null ? dec(x).add(dec(y)) : dec(x).add(dec(y), mc());
            default: return dbl(x) + dbl(y);
        }
    }
    static Object addExact(long x, long y) {
        long r = x + y;
        if (((x ^ r) & (y ^ r)) < 0) throw new ArithmeticException("integer overflow");
        return r;
    }
    static Object neg(Object x) {
        switch (cat(x)) {
            case L: if (lng(x) == Long.MIN_VALUE) throw new ArithmeticException("integer overflow"); return -lng(x);
            case B: return big(x).negate();
            case R: return new Ratio(((Ratio) x).num.negate(), ((Ratio) x).den);
            case D: return mc() == null ? dec(x).negate() : dec(x).negate(mc());
            default: return -dbl(x);
        }
    }
    static Object sub(Object x, Object y) {
        switch (Math.max(cat(x), cat(y))) {
            case L: { long a = lng(x), b = lng(y), r = a - b; if (((a ^ b) & (a ^ r)) < 0) throw new ArithmeticException("integer overflow"); return r; }
            case D: return mc() == null ? dec(x).subtract(dec(y)) : dec(x).subtract(dec(y), mc());
            default: return add(x, neg(y));
        }
    }
    static Object mul(Object x, Object y) {
        switch (Math.max(cat(x), cat(y))) {
            case L: try { return Math.multiplyExact(lng(x), lng(y)); } catch (ArithmeticException e) { throw new ArithmeticException("integer overflow"); }
            case B: return big(x).multiply(big(y));
            case R: { Ratio a = ratio(x), b = ratio(y); return frac(a.num.multiply(b.num), a.den.multiply(b.den)); }
            case D: return mc() == null ? dec(x).multiply(dec(y)) : dec(x).multiply(dec(y), mc());
            default: return dbl(x) * dbl(y);
        }
    }
    static Object div(Object x, Object y) {
        switch (Math.max(cat(x), cat(y))) {
            case L: case B: case R: { Ratio a = ratio(x), b = ratio(y); return frac(a.num.multiply(b.den), a.den.multiply(b.num)); }
            case D: if (dec(y).signum() == 0) throw new ArithmeticException("Divide by zero");
                return mc() == null ? dec(x).divide(dec(y)) : dec(x).divide(dec(y), mc());
            default: return dbl(x) / dbl(y);
        }
    }
    static Object quo(Object x, Object y) {
        switch (Math.max(cat(x), cat(y))) {
            case L: if (lng(y) == 0) throw new ArithmeticException("Divide by zero"); return lng(x) / lng(y);
            case B: if (big(y).signum() == 0) throw new ArithmeticException("Divide by zero"); return big(x).divide(big(y));
            case R: { Ratio a = ratio(x), b = ratio(y); return a.num.multiply(b.den).divide(a.den.multiply(b.num)); }
            case D: return dec(x).divideToIntegralValue(dec(y));
            default: return (double) (long) (dbl(x) / dbl(y));
        }
    }
    static Object rem(Object x, Object y) {
        switch (Math.max(cat(x), cat(y))) {
            case L: if (lng(y) == 0) throw new ArithmeticException("Divide by zero"); return lng(x) % lng(y);
            case B: return big(x).remainder(big(y));
            case D: return dec(x).remainder(dec(y));
            case F: return dbl(x) % dbl(y);
            default: return sub(x, mul(quo(x, y), y));
        }
    }
    static Object mod(Object x, Object y) {
        Object m = rem(x, y);
        return sign(m) == 0 || (sign(y) > 0) == (sign(m) > 0) ? m : add(m, y);
    }
    static int sign(Object x) {
        switch (cat(x)) {
            case L: return Long.signum(lng(x));
            case B: return big(x).signum();
            case R: return ((Ratio) x).num.signum();
            case D: return dec(x).signum();
            default: return (int) Math.signum(dbl(x));
        }
    }
    static int compare(Object x, Object y) {
        switch (Math.max(cat(x), cat(y))) {
            case L: return Long.compare(lng(x), lng(y));
            case B: return big(x).compareTo(big(y));
            case R: { Ratio a = ratio(x), b = ratio(y); return a.num.multiply(b.den).compareTo(b.num.multiply(a.den)); }
            case D: if (x instanceof Ratio || y instanceof Ratio) { Ratio a = x instanceof Ratio ? (Ratio) x : rdec(dec(x)), b = y instanceof Ratio ? (Ratio) y : rdec(dec(y)); return a.num.multiply(b.den).compareTo(b.num.multiply(a.den)); }
                return dec(x).compareTo(dec(y));
            default: return dbl(x) < dbl(y) ? -1 : dbl(y) < dbl(x) ? 1 : 0;
        }
    }
    static Ratio rdec(BigDecimal d) {
        return d.scale() <= 0 ? new Ratio(d.toBigIntegerExact(), BigInteger.ONE) : new Ratio(d.unscaledValue(), BigInteger.TEN.pow(d.scale()));
    }
    /** = on numbers: of the same category, and the same value. */
    static boolean equal(Object x, Object y) {
        int a = cat(x), b = cat(y);
        boolean ia = a == L || a == B, ib = b == L || b == B;
        if (ia && ib) return a == L && b == L ? lng(x) == lng(y) : big(x).equals(big(y));
        if (a != b) return false;
        switch (a) {
            case R: return x.equals(y);
            case D: return dec(x).compareTo(dec(y)) == 0;
            default: return dbl(x) == dbl(y);
        }
    }
    static int hash(Object x) {
        switch (cat(x)) {
            case L: return Long.hashCode(lng(x));
            case B: return big(x).bitLength() < 64 ? Long.hashCode(big(x).longValue()) : x.hashCode();
            case D: return dec(x).signum() == 0 ? BigDecimal.ZERO.hashCode() : dec(x).stripTrailingZeros().hashCode();
            default: return x.hashCode();
        }
    }
}
