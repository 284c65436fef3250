/* TLC override for spec/Cipher.tla (definitions there; spec/CipherSelf.tla compares). */
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.*;

public class Cipher {
    private static Value run(final String alg, final int mode, final Value key, final Value b) throws Exception {
        final javax.crypto.Cipher c = javax.crypto.Cipher.getInstance(alg + "/ECB/NoPadding");
        c.init(mode, new SecretKeySpec(Hash.bytes(key), alg));
        return Hash.seq(c.doFinal(Hash.bytes(b)));
    }

    public static Value AesEnc(final Value k, final Value b) throws Exception { return run("AES", 1, k, b); }
    public static Value AesDec(final Value k, final Value b) throws Exception { return run("AES", 2, k, b); }
    public static Value DesEnc(final Value k, final Value b) throws Exception { return run("DES", 1, k, b); }
    public static Value DesDec(final Value k, final Value b) throws Exception { return run("DES", 2, k, b); }
    public static Value TdesEnc(final Value k, final Value b) throws Exception { return run("DESede", 1, k, b); }
    public static Value TdesDec(final Value k, final Value b) throws Exception { return run("DESede", 2, k, b); }

    public static Value ToyEnc(final Value key, final Value blk) {
        final byte[] k = Hash.bytes(key), b = Hash.bytes(blk), t = new byte[b.length], o = new byte[b.length];
        for (int i = 0; i < b.length; i++)
            t[i] = (byte) ((b[i] ^ k[i % k.length]) + (i > 0 ? t[i - 1] : 0) + i + 1);
        for (int i = 0; i < b.length; i++)
            o[i] = (byte) (5 * t[(i + 1) % b.length] + 3);
        return Hash.seq(o);
    }

    public static Value ToyDec(final Value key, final Value ct) {
        final byte[] k = Hash.bytes(key), c = Hash.bytes(ct);
        final int n = c.length;
        final byte[] t = new byte[n], o = new byte[n];
        for (int i = 0; i < n; i++)
            t[i] = (byte) (205 * (c[(i + n - 1) % n] - 3));
        for (int i = 0; i < n; i++)
            o[i] = (byte) ((byte) (t[i] - (i + 1) - (i > 0 ? t[i - 1] : 0)) ^ k[i % k.length]);
        return Hash.seq(o);
    }
}
