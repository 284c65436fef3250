/*
 * TLC module override for spec/BigNum.tla.  The TLA+ text in BigNum.tla is the
 * definition; these methods compute the same functions with java.math.BigInteger
 * so that 4096-bit traces validate in milliseconds.  spec/BigNumSelf.tla makes TLC
 * evaluate the overridden and the pure definitions side by side.
 */
import java.math.BigInteger;
import tlc2.value.impl.*;

public class BigNum {
    private static BigInteger mag(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final int n = t.size();
        final byte[] b = new byte[n + 1];
        for (int i = 0; i < n; i++)
            b[n - i] = (byte) ((IntValue) t.elems[i]).val;
        return new BigInteger(b);
    }

    private static BigInteger big(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final BigInteger m = mag(t.elems[1]);
        return ((IntValue) t.elems[0]).val == 0 ? m : m.negate();
    }

    private static Value magVal(final BigInteger x) {
        final byte[] b = x.toByteArray();
        int start = 0;
        while (start < b.length && b[start] == 0)
            start++;
        final int n = b.length - start;
        final Value[] e = new Value[n];
        for (int i = 0; i < n; i++)
            e[i] = IntValue.gen(b[b.length - 1 - i] & 0xff);
        return new TupleValue(e);
    }

    private static Value val(final BigInteger x) {
        return new TupleValue(new Value[] { IntValue.gen(x.signum() < 0 ? 1 : 0), magVal(x.abs()) });
    }

    public static Value BAdd(final Value a, final Value b) { return val(big(a).add(big(b))); }
    public static Value BSub(final Value a, final Value b) { return val(big(a).subtract(big(b))); }
    public static Value BMul(final Value a, final Value b) { return val(big(a).multiply(big(b))); }
    public static Value BCmp(final Value a, final Value b) { return IntValue.gen(big(a).compareTo(big(b))); }

    public static Value BFloorDiv(final Value a, final Value b) {
        final BigInteger y = big(b);
        final BigInteger[] qr = big(a).divideAndRemainder(y);
        BigInteger q = qr[0];
        if (qr[1].signum() != 0 && (qr[1].signum() < 0) != (y.signum() < 0))
            q = q.subtract(BigInteger.ONE);
        return val(q);
    }

    public static Value BShl(final Value a, final IntValue n) { return val(big(a).shiftLeft(n.val)); }

    public static Value BShr(final Value a, final IntValue n) {
        final BigInteger x = big(a);
        final BigInteger m = x.abs().shiftRight(n.val);
        return val(x.signum() < 0 ? m.negate() : m);
    }

    public static Value BModExp(final Value b, final Value e, final Value m) {
        return val(big(b).modPow(big(e), big(m)));
    }

    public static Value BExp(final Value b, final IntValue e) { return val(big(b).pow(e.val)); }

    public static Value BGcd(final Value a, final Value b) { return val(big(a).gcd(big(b))); }

    /* inverse, or -1 when there is none */
    public static Value BInv(final Value a, final Value m) {
        final BigInteger x = big(a), y = big(m);
        if (!x.gcd(y).equals(BigInteger.ONE))
            return val(BigInteger.ONE.negate());
        return val(x.modInverse(y));
    }

    public static Value BIsPrime(final Value a) {
        final BigInteger x = big(a);
        return x.signum() > 0 && x.isProbablePrime(120) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    public static Value BSqrt(final Value a) { return val(big(a).sqrt()); }
}
