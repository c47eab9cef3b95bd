import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Accelerators for the operators of spec/BigInt.tla and spec/Dyadic.tla.  Each
 * method computes exactly what the TLA+ definition of the same name says;
 * BigIntCheck.tla is run with and without this class to confirm it.
 */
public class BigIntOverrides implements ITLCOverrides {
    @Override
    @SuppressWarnings("rawtypes")
    public Class[] get() {
        return new Class[] { BigIntOverrides.class };
    }

    private static final Value ZERO = new TupleValue(new Value[] { IntValue.ValZero });
    private static final IntValue[] SMALL = new IntValue[32768];
    static {
        for (int i = 0; i < SMALL.length; i++) SMALL[i] = IntValue.gen(i);
    }

    private static Value[] elems(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        return ((TupleValue) v.toTuple()).elems;
    }

    private static int intOf(Value v) { return ((IntValue) v).val; }

    static BigInteger big(Value v) {
        final Value[] e = elems(v);
        final int s = intOf(e[0]);
        if (s == 0) return BigInteger.ZERO;
        final int n = e.length - 1;
        if (n <= 4) {
            long r = 0;
            for (int i = n; i >= 1; i--) r = (r << 15) | intOf(e[i]);
            return BigInteger.valueOf(s < 0 ? -r : r);
        }
        final int nb = (n * 15 + 7) / 8 + 1;
        final byte[] b = new byte[nb];
        long acc = 0;
        int bits = 0, pos = nb - 1;
        for (int i = 1; i <= n; i++) {
            acc |= ((long) intOf(e[i])) << bits;
            bits += 15;
            while (bits >= 8) { b[pos--] = (byte) acc; acc >>>= 8; bits -= 8; }
        }
        if (bits > 0) b[pos--] = (byte) acc;
        return new BigInteger(s, b);
    }

    static Value val(BigInteger x) {
        final int s = x.signum();
        if (s == 0) return ZERO;
        final BigInteger a = x.abs();
        final int bl = a.bitLength();
        final int n = (bl + 14) / 15;
        final Value[] e = new Value[n + 1];
        e[0] = IntValue.gen(s);
        if (bl <= 62) {
            long r = a.longValue();
            for (int i = 1; i <= n; i++) { e[i] = SMALL[(int) (r & 32767)]; r >>>= 15; }
        } else {
            final byte[] b = a.toByteArray();
            long acc = 0;
            int bits = 0, pos = b.length - 1;
            for (int i = 1; i <= n; i++) {
                while (bits < 15 && pos >= 0) { acc |= ((long) (b[pos--] & 255)) << bits; bits += 8; }
                e[i] = SMALL[(int) (acc & 32767)];
                acc >>>= 15;
                bits -= 15;
            }
        }
        return new TupleValue(e);
    }

    @TLAPlusOperator(identifier = "BOfInt", module = "BigInt", warn = false)
    public static Value bOfInt(final Value a) { return val(BigInteger.valueOf(intOf(a))); }

    @TLAPlusOperator(identifier = "BToInt", module = "BigInt", warn = false)
    public static Value bToInt(final Value a) { return IntValue.gen(big(a).intValueExact()); }

    @TLAPlusOperator(identifier = "BNeg", module = "BigInt", warn = false)
    public static Value bNeg(final Value a) {
        final Value[] e = elems(a);
        if (intOf(e[0]) == 0) return a;
        final Value[] r = e.clone();
        r[0] = IntValue.gen(-intOf(e[0]));
        return new TupleValue(r);
    }

    @TLAPlusOperator(identifier = "BCmp", module = "BigInt", warn = false)
    public static Value bCmp(final Value a, final Value b) { return IntValue.gen(big(a).compareTo(big(b))); }

    @TLAPlusOperator(identifier = "BAdd", module = "BigInt", warn = false)
    public static Value bAdd(final Value a, final Value b) { return val(big(a).add(big(b))); }

    @TLAPlusOperator(identifier = "BSub", module = "BigInt", warn = false)
    public static Value bSub(final Value a, final Value b) { return val(big(a).subtract(big(b))); }

    @TLAPlusOperator(identifier = "BMul", module = "BigInt", warn = false)
    public static Value bMul(final Value a, final Value b) { return val(big(a).multiply(big(b))); }

    @TLAPlusOperator(identifier = "BShl", module = "BigInt", warn = false)
    public static Value bShl(final Value a, final Value k) { return val(big(a).shiftLeft(intOf(k))); }

    @TLAPlusOperator(identifier = "BShr", module = "BigInt", warn = false)
    public static Value bShr(final Value a, final Value k) { return val(big(a).shiftRight(intOf(k))); }

    private static BigInteger floorDiv(BigInteger a, BigInteger b) {
        final BigInteger[] qr = a.divideAndRemainder(b);
        return qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }

    @TLAPlusOperator(identifier = "BDiv", module = "BigInt", warn = false)
    public static Value bDiv(final Value a, final Value b) { return val(floorDiv(big(a), big(b))); }

    @TLAPlusOperator(identifier = "BMod", module = "BigInt", warn = false)
    public static Value bMod(final Value a, final Value b) { return val(big(a).mod(big(b))); }

    @TLAPlusOperator(identifier = "BBits", module = "BigInt", warn = false)
    public static Value bBits(final Value a) {
        final Value[] e = elems(a);
        if (intOf(e[0]) == 0) return IntValue.ValZero;
        final int n = e.length - 1;
        return IntValue.gen(15 * (n - 1) + (32 - Integer.numberOfLeadingZeros(intOf(e[n]))));
    }

    @TLAPlusOperator(identifier = "BTz", module = "BigInt", warn = false)
    public static Value bTz(final Value a) {
        final Value[] e = elems(a);
        if (intOf(e[0]) == 0) return IntValue.ValZero;
        int i = 1;
        while (intOf(e[i]) == 0) i++;
        return IntValue.gen(15 * (i - 1) + Integer.numberOfTrailingZeros(intOf(e[i])));
    }

    @TLAPlusOperator(identifier = "BSqrt", module = "BigInt", warn = false)
    public static Value bSqrt(final Value a) { return val(big(a).sqrt()); }

    @TLAPlusOperator(identifier = "BPow", module = "BigInt", warn = false)
    public static Value bPow(final Value a, final Value n) { return val(big(a).pow(intOf(n))); }

    // ---- Dyadic ---------------------------------------------------------
    // number = <<class, exponent, mantissa>>

    private static final Value DZERO = new TupleValue(new Value[] { IntValue.ValZero, IntValue.ValZero, ZERO });

    static Value num(BigInteger m, int e) {
        if (m.signum() == 0) return DZERO;
        final int t = m.getLowestSetBit();
        if (t > 0) { m = m.shiftRight(t); e += t; }
        return new TupleValue(new Value[] { IntValue.ValZero, IntValue.gen(e), val(m) });
    }

    @TLAPlusOperator(identifier = "DMk", module = "Dyadic", warn = false)
    public static Value dMk(final Value m, final Value e) { return num(big(m), intOf(e)); }

    @TLAPlusOperator(identifier = "DAdd", module = "Dyadic", warn = false)
    public static Value dAdd(final Value a, final Value b) {
        final Value[] x = elems(a), y = elems(b);
        BigInteger p = big(x[2]), q = big(y[2]);
        if (p.signum() == 0) return b;
        if (q.signum() == 0) return a;
        final int ex = intOf(x[1]), ey = intOf(y[1]);
        if (ex >= ey) return num(p.shiftLeft(ex - ey).add(q), ey);
        return num(q.shiftLeft(ey - ex).add(p), ex);
    }

    @TLAPlusOperator(identifier = "DMul", module = "Dyadic", warn = false)
    public static Value dMul(final Value a, final Value b) {
        final Value[] x = elems(a), y = elems(b);
        return num(big(x[2]).multiply(big(y[2])), intOf(x[1]) + intOf(y[1]));
    }

    @TLAPlusOperator(identifier = "DCmp", module = "Dyadic", warn = false)
    public static Value dCmp(final Value a, final Value b) {
        final Value[] x = elems(a), y = elems(b);
        final BigInteger p = big(x[2]), q = big(y[2]);
        final int sp = p.signum(), sq = q.signum();
        if (sp != sq) return IntValue.gen(sp < sq ? -1 : 1);
        if (sp == 0) return IntValue.ValZero;
        final int ex = intOf(x[1]), ey = intOf(y[1]);
        final int bx = p.bitLength(), by = q.bitLength();   // magnitude comparison first
        final BigInteger ap = p.abs(), aq = q.abs();
        final long tx = (long) ap.bitLength() + ex, ty = (long) aq.bitLength() + ey;
        if (tx != ty) return IntValue.gen((tx < ty) == (sp > 0) ? -1 : 1);
        int c;
        if (ex >= ey) c = p.shiftLeft(ex - ey).compareTo(q);
        else c = p.compareTo(q.shiftLeft(ey - ex));
        return IntValue.gen(c);
    }

    /** floor to k significant bits: largest multiple of 2^(top-k) not above the argument. */
    @TLAPlusOperator(identifier = "DTrunc", module = "Dyadic", warn = false)
    public static Value dTrunc(final Value a, final Value k) {
        final Value[] x = elems(a);
        final BigInteger p = big(x[2]);
        final int s = p.abs().bitLength() - intOf(k);
        if (s <= 0) return a;
        return num(p.shiftRight(s), intOf(x[1]) + s);
    }

    @TLAPlusOperator(identifier = "DTruncUp", module = "Dyadic", warn = false)
    public static Value dTruncUp(final Value a, final Value k) {
        final Value[] x = elems(a);
        final BigInteger p = big(x[2]);
        final int s = p.abs().bitLength() - intOf(k);
        if (s <= 0) return a;
        return num(p.negate().shiftRight(s).negate(), intOf(x[1]) + s);
    }

    /** quotient of dyadics, floored to at least k significant bits, with a sticky bit: see Dyadic!DDivS. */
    @TLAPlusOperator(identifier = "DDivS", module = "Dyadic", warn = false)
    public static Value dDivS(final Value a, final Value b, final Value k) {
        final Value[] x = elems(a), y = elems(b);
        BigInteger p = big(x[2]), q = big(y[2]);
        if (p.signum() == 0) return DZERO;
        if (q.signum() < 0) { p = p.negate(); q = q.negate(); }
        int sh = intOf(k) + q.bitLength() - p.abs().bitLength() + 1;
        if (sh < 0) sh = 0;
        final BigInteger n = p.shiftLeft(sh);
        final BigInteger f = floorDiv(n, q);
        final boolean exact = f.multiply(q).equals(n);
        final BigInteger m = f.shiftLeft(1).add(exact ? BigInteger.ZERO : BigInteger.ONE);
        return num(m, intOf(x[1]) - intOf(y[1]) - sh - 1);
    }
}
