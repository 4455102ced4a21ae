import java.math.BigInteger;

import tlc2.overrides.TLAPlusOperator;
import tlc2.tool.EvalException;
import tlc2.output.EC;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Evaluator for the operators of module Rat (exact rational arithmetic).
 *
 * Representation (see Rat.tla): an integer whose absolute value is below 2^30
 * is an Int; every other rational is the tuple << num, den >> where num and
 * den are tuples of base 2^30 limbs, least significant first, the sign of the
 * number on every limb of num, den positive, the fraction in lowest terms.
 */
public class RatOps {
    private static final int BITS = 30;
    private static final int MASK = (1 << BITS) - 1;
    private static final BigInteger LIM = BigInteger.ONE.shiftLeft(BITS);

    /** A rational: a TLA+ tuple which also caches its numerator and denominator. */
    static final class Rat extends TupleValue {
        final BigInteger n, d;
        Rat(BigInteger n, BigInteger d) {
            super(new Value[] { limbs(n), limbs(d) });
            this.n = n;
            this.d = d;
        }
    }

    private static TupleValue limbs(BigInteger x) {
        int sign = x.signum();
        BigInteger m = x.abs();
        int count = (m.bitLength() + BITS - 1) / BITS;
        Value[] v = new Value[count];
        for (int i = 0; i < count; i++) {
            int limb = m.intValue() & MASK;
            v[i] = IntValue.gen(sign < 0 ? -limb : limb);
            m = m.shiftRight(BITS);
        }
        return new TupleValue(v);
    }

    private static BigInteger big(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw err("not a sequence of limbs: " + v);
        BigInteger r = BigInteger.ZERO;
        for (int i = t.elems.length - 1; i >= 0; i--)
            r = r.shiftLeft(BITS).add(BigInteger.valueOf(((IntValue) t.elems[i]).val));
        return r;
    }

    private static EvalException err(String s) {
        return new EvalException(EC.GENERAL, "Rat: " + s);
    }

    /** numerator and denominator of a value */
    private static BigInteger[] nd(Value v) {
        if (v instanceof Rat) {
            Rat r = (Rat) v;
            return new BigInteger[] { r.n, r.d };
        }
        if (v instanceof IntValue)
            return new BigInteger[] { BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE };
        Value tv = v.toTuple();
        if (tv instanceof TupleValue && ((TupleValue) tv).elems.length == 2) {
            TupleValue t = (TupleValue) tv;
            BigInteger n = big(t.elems[0]), d = big(t.elems[1]);
            if (d.signum() > 0) return new BigInteger[] { n, d };
        }
        throw err("not a rational: " + v);
    }

    private static Value make(BigInteger n, BigInteger d) {
        if (d.signum() == 0) throw err("division by zero");
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(BigInteger.ONE)) {
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        }
        if (d.equals(BigInteger.ONE) && n.abs().compareTo(LIM) < 0) return IntValue.gen(n.intValue());
        return new Rat(n, d);
    }

    private static Value make(long n) {
        if (-(1L << BITS) < n && n < (1L << BITS)) return IntValue.gen((int) n);
        return new Rat(BigInteger.valueOf(n), BigInteger.ONE);
    }

    private static boolean ints(Value a, Value b) {
        return a instanceof IntValue && b instanceof IntValue;
    }

    private static int cmp(Value a, Value b) {
        if (ints(a, b)) return Integer.compare(((IntValue) a).val, ((IntValue) b).val);
        BigInteger[] x = nd(a), y = nd(b);
        if (x[1].equals(y[1])) return x[0].compareTo(y[0]);
        int sx = x[0].signum(), sy = y[0].signum();
        if (sx != sy) return Integer.compare(sx, sy);
        return x[0].multiply(y[1]).compareTo(y[0].multiply(x[1]));
    }

    private static Value add(Value a, Value b) {
        if (ints(a, b)) return make((long) ((IntValue) a).val + ((IntValue) b).val);
        BigInteger[] x = nd(a), y = nd(b);
        if (x[1].equals(y[1])) return make(x[0].add(y[0]), x[1]);
        return make(x[0].multiply(y[1]).add(y[0].multiply(x[1])), x[1].multiply(y[1]));
    }

    private static Value neg(Value a) {
        BigInteger[] x = nd(a);
        return make(x[0].negate(), x[1]);
    }

    private static Value mul(Value a, Value b) {
        if (ints(a, b)) return make((long) ((IntValue) a).val * ((IntValue) b).val);
        BigInteger[] x = nd(a), y = nd(b);
        return make(x[0].multiply(y[0]), x[1].multiply(y[1]));
    }

    private static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw err("not a sequence: " + v);
        return ((TupleValue) t).elems;
    }

    private static int nat(Value v) {
        return ((IntValue) v).val;
    }

    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value rAdd(Value a, Value b) { return add(a, b); }

    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value rSub(Value a, Value b) {
        if (ints(a, b)) return make((long) ((IntValue) a).val - ((IntValue) b).val);
        return add(a, neg(b));
    }

    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value rMul(Value a, Value b) { return mul(a, b); }

    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value rDiv(Value a, Value b) {
        BigInteger[] x = nd(a), y = nd(b);
        return make(x[0].multiply(y[1]), x[1].multiply(y[0]));
    }

    @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
    public static Value rNeg(Value a) { return neg(a); }

    @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
    public static Value rAbs(Value a) {
        BigInteger[] x = nd(a);
        return make(x[0].abs(), x[1]);
    }

    @TLAPlusOperator(identifier = "RSign", module = "Rat", warn = false)
    public static Value rSign(Value a) { return IntValue.gen(nd(a)[0].signum()); }

    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value rLt(Value a, Value b) { return cmp(a, b) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value rLe(Value a, Value b) { return cmp(a, b) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "REq", module = "Rat", warn = false)
    public static Value rEq(Value a, Value b) { return cmp(a, b) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "RMin", module = "Rat", warn = false)
    public static Value rMin(Value a, Value b) { return cmp(b, a) < 0 ? b : a; }

    @TLAPlusOperator(identifier = "RMax", module = "Rat", warn = false)
    public static Value rMax(Value a, Value b) { return cmp(b, a) > 0 ? b : a; }

    @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
    public static Value rFloor(Value a) {
        BigInteger[] x = nd(a);
        BigInteger[] qr = x[0].divideAndRemainder(x[1]);
        return make(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0], BigInteger.ONE);
    }

    @TLAPlusOperator(identifier = "RSum", module = "Rat", warn = false)
    public static Value rSum(Value s) {
        Value r = IntValue.gen(0);
        for (Value v : seq(s)) r = add(r, v);
        return r;
    }

    @TLAPlusOperator(identifier = "RDot", module = "Rat", warn = false)
    public static Value rDot(Value s, Value t) {
        Value[] x = seq(s), y = seq(t);
        if (x.length != y.length) throw err("RDot: sequences of different lengths");
        Value r = IntValue.gen(0);
        for (int i = 0; i < x.length; i++) r = add(r, mul(x[i], y[i]));
        return r;
    }

    @TLAPlusOperator(identifier = "RMaxSeq", module = "Rat", warn = false)
    public static Value rMaxSeq(Value s) {
        Value[] x = seq(s);
        Value r = x[0];
        for (Value v : x) if (cmp(v, r) > 0) r = v;
        return r;
    }

    @TLAPlusOperator(identifier = "RMinSeq", module = "Rat", warn = false)
    public static Value rMinSeq(Value s) {
        Value[] x = seq(s);
        Value r = x[0];
        for (Value v : x) if (cmp(v, r) < 0) r = v;
        return r;
    }

    @TLAPlusOperator(identifier = "RPow", module = "Rat", warn = false)
    public static Value rPow(Value a, Value n) {
        BigInteger[] x = nd(a);
        return make(x[0].pow(nat(n)), x[1].pow(nat(n)));
    }

    /** the greatest multiple of 2^-bits that is not greater than a */
    @TLAPlusOperator(identifier = "RRoundDown", module = "Rat", warn = false)
    public static Value rRoundDown(Value a, Value bits) {
        BigInteger[] x = nd(a);
        BigInteger[] qr = x[0].shiftLeft(nat(bits)).divideAndRemainder(x[1]);
        BigInteger q = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
        return make(q, BigInteger.ONE.shiftLeft(nat(bits)));
    }

    /** the greatest multiple of 2^-bits whose square is not greater than a */
    @TLAPlusOperator(identifier = "RSqrtLo", module = "Rat", warn = false)
    public static Value rSqrtLo(Value a, Value bits) {
        BigInteger[] x = nd(a);
        if (x[0].signum() < 0) throw err("RSqrtLo of a negative number");
        BigInteger q = x[0].shiftLeft(2 * nat(bits)).divide(x[1]);
        return make(q.sqrt(), BigInteger.ONE.shiftLeft(nat(bits)));
    }

    /** 2^-k for 0 <= k */
    @TLAPlusOperator(identifier = "RTwoPow", module = "Rat", warn = false)
    public static Value rTwoPow(Value k) {
        int e = nat(k);
        return e < 0 ? make(BigInteger.ONE, BigInteger.ONE.shiftLeft(-e)) : make(BigInteger.ONE.shiftLeft(e), BigInteger.ONE);
    }

    /** decimal rendering, for messages only */
    @TLAPlusOperator(identifier = "RStr", module = "Rat", warn = false)
    public static Value rStr(Value a) {
        BigInteger[] x = nd(a);
        return new StringValue(new java.math.BigDecimal(x[0]).divide(new java.math.BigDecimal(x[1]), java.math.MathContext.DECIMAL64).toString());
    }
}
