/* TLC override for spec/Hash.tla (definitions there; spec/HashSelf.tla compares). */
import java.security.MessageDigest;
import tlc2.value.impl.*;

public class Hash {
    static byte[] bytes(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final int n = t.size();
        final byte[] b = new byte[n];
        for (int i = 0; i < n; i++)
            b[i] = (byte) ((IntValue) t.elems[i]).val;
        return b;
    }

    static Value seq(final byte[] b) {
        final Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++)
            e[i] = IntValue.gen(b[i] & 0xff);
        return new TupleValue(e);
    }

    private static Value h(final String alg, final Value m) throws Exception {
        return seq(MessageDigest.getInstance(alg).digest(bytes(m)));
    }

    public static Value Md5(final Value m) throws Exception { return h("MD5", m); }
    public static Value Sha1(final Value m) throws Exception { return h("SHA-1", m); }
    public static Value Sha256(final Value m) throws Exception { return h("SHA-256", m); }
    public static Value Sha384(final Value m) throws Exception { return h("SHA-384", m); }
    public static Value Sha512(final Value m) throws Exception { return h("SHA-512", m); }

    public static Value HashZeros(final StringValue alg, final IntValue hi, final IntValue lo) throws Exception {
        final String a = alg.getVal().toString();
        final MessageDigest d = MessageDigest.getInstance(a.equals("md5") ? "MD5" : a.replace("sha", "SHA-"));
        final byte[] z = new byte[1 << 20];
        for (int i = 0; i < hi.val; i++)
            d.update(z);
        for (int left = lo.val; left > 0; left -= z.length)
            d.update(z, 0, Math.min(left, z.length));
        return seq(d.digest());
    }
}
