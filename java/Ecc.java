/*
 * TLC module override for spec/Ecc.tla: EMul with java.math.BigInteger, by the same
 * double-and-add and the same chord-and-tangent formulas as the TLA+ definition.
 * spec/EccSelf.tla makes TLC evaluate the overridden and the pure definition side by side.
 */
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Ecc {
    private static BigInteger big(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final TupleValue m = (TupleValue) t.elems[1].toTuple();
        final int n = m.size();
        final byte[] b = new byte[n + 1];
        for (int i = 0; i < n; i++)
            b[n - i] = (byte) ((IntValue) m.elems[i]).val;
        final BigInteger x = new BigInteger(b);
        return ((IntValue) t.elems[0]).val == 0 ? x : x.negate();
    }

    private static Value val(final BigInteger x) {     // x >= 0
        final byte[] b = x.toByteArray();
        int start = 0;
        while (start < b.length && b[start] == 0)
            start++;
        final int n = b.length - start;
        final Value[] e = new Value[n];
        for (int i = 0; i < n; i++)
            e[i] = IntValue.gen(b[b.length - 1 - i] & 0xff);
        return new TupleValue(new Value[] { IntValue.gen(0), new TupleValue(e) });
    }

    private static BigInteger[] chord(final BigInteger p, final BigInteger[] s, final BigInteger[] t,
                                      final BigInteger num, final BigInteger den) {
        final BigInteger lam = num.multiply(den.modInverse(p)).mod(p);
        final BigInteger x = lam.multiply(lam).subtract(s[0]).subtract(t[0]).mod(p);
        return new BigInteger[] { x, lam.multiply(s[0].subtract(x)).subtract(s[1]).mod(p) };
    }

    private static BigInteger[] dbl(final BigInteger p, final BigInteger a, final BigInteger[] s) {
        if (s == null || s[1].shiftLeft(1).mod(p).signum() == 0)
            return null;
        return chord(p, s, s, s[0].multiply(s[0]).multiply(BigInteger.valueOf(3)).add(a), s[1].shiftLeft(1));
    }

    private static BigInteger[] add(final BigInteger p, final BigInteger a, final BigInteger[] s, final BigInteger[] t) {
        if (s == null)
            return t;
        if (t == null)
            return s;
        if (s[0].equals(t[0]))
            return s[1].equals(t[1]) ? dbl(p, a, s) : null;
        return chord(p, s, t, t[1].subtract(s[1]), t[0].subtract(s[0]));
    }

    public static Value EMul(final Value c, final Value k, final Value pt) {
        final RecordValue r = (RecordValue) c.toRcd();
        final BigInteger p = big(r.select(new StringValue("p"))), a = big(r.select(new StringValue("a"))), n = big(k);
        final TupleValue t = (TupleValue) pt.toTuple();
        final BigInteger[] s = ((IntValue) t.elems[0]).val == 1 ? null : new BigInteger[] { big(t.elems[1]), big(t.elems[2]) };
        BigInteger[] h = null;
        for (int i = n.bitLength() - 1; i >= 0; i--) {
            h = dbl(p, a, h);
            if (n.testBit(i))
                h = add(p, a, h, s);
        }
        final BigInteger z = BigInteger.ZERO;
        return new TupleValue(new Value[] { IntValue.gen(h == null ? 1 : 0), val(h == null ? z : h[0]), val(h == null ? z : h[1]) });
    }
}
