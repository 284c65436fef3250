/* TLC override for spec/Modes.tla: multiplication in GF(2^128) (ModesSelf compares). */
import tlc2.value.impl.*;

public class Modes {
    private static long get(final byte[] b, final int o) {
        long v = 0;
        for (int i = 0; i < 8; i++)
            v = v << 8 | (b[o + i] & 0xff);
        return v;
    }

    public static Value GfMul(final Value x, final Value y) {
        final byte[] a = Hash.bytes(x), b = Hash.bytes(y);
        long vh = get(b, 0), vl = get(b, 8), zh = 0, zl = 0;
        for (int i = 0; i < 128; i++) {
            if ((a[i / 8] >> (7 - i % 8) & 1) == 1) {
                zh ^= vh;
                zl ^= vl;
            }
            final boolean lsb = (vl & 1) == 1;
            vl = vl >>> 1 | vh << 63;
            vh = vh >>> 1 ^ (lsb ? 0xE1L << 56 : 0);
        }
        final byte[] o = new byte[16];
        for (int i = 0; i < 8; i++) {
            o[i] = (byte) (zh >>> (56 - 8 * i));
            o[8 + i] = (byte) (zl >>> (56 - 8 * i));
        }
        return Hash.seq(o);
    }
}
