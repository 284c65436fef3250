/* TLC override for spec/Streams.tla (definitions there; spec/StreamsSelf.tla compares). */
import tlc2.value.impl.*;

public class Streams {
    private static Value ints(final int[] a) {
        final Value[] e = new Value[a.length];
        for (int i = 0; i < a.length; i++)
            e[i] = IntValue.gen(a[i]);
        return new TupleValue(e);
    }

    private static int[] arr(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final int[] a = new int[t.size()];
        for (int i = 0; i < a.length; i++)
            a[i] = ((IntValue) t.elems[i]).val;
        return a;
    }

    public static Value Arc4Key(final Value key) {
        final int[] k = arr(key), s = new int[256];
        for (int i = 0; i < 256; i++)
            s[i] = i;
        for (int i = 0, j = 0; i < 256; i++) {
            j = (j + s[i] + k[i % k.length]) & 255;
            final int t = s[i];
            s[i] = s[j];
            s[j] = t;
        }
        return new TupleValue(new Value[] { IntValue.gen(0), IntValue.gen(0), ints(s) });
    }

    public static Value Arc4Run(final Value st, final IntValue n) {
        final TupleValue t = (TupleValue) st.toTuple();
        int x = ((IntValue) t.elems[0]).val, y = ((IntValue) t.elems[1]).val;
        final int[] s = arr(t.elems[2]), o = new int[n.val];
        for (int i = 0; i < n.val; i++) {
            x = (x + 1) & 255;
            y = (y + s[x]) & 255;
            final int u = s[x];
            s[x] = s[y];
            s[y] = u;
            o[i] = s[(s[x] + s[y]) & 255];
        }
        return new TupleValue(new Value[] {
            new TupleValue(new Value[] { IntValue.gen(x), IntValue.gen(y), ints(s) }), ints(o) });
    }

    public static Value TrivRun(final Value key, final Value iv, final IntValue pos, final IntValue n) {
        final int[] k = arr(key), v = arr(iv);
        final boolean[] s = new boolean[289];
        for (int i = 1; i <= 93 && i <= 8 * k.length; i++)
            s[i] = (k[(i - 1) / 8] >> ((i - 1) % 8) & 1) == 1;
        for (int i = 1; i <= 84 && i <= 8 * v.length; i++)
            s[93 + i] = (v[(i - 1) / 8] >> ((i - 1) % 8) & 1) == 1;
        s[286] = s[287] = s[288] = true;
        final int[] o = new int[n.val];
        final int total = 1152 + 32 * ((pos.val + n.val + 3) / 4);
        for (int step = 0; step < total; step++) {
            boolean t1 = s[66] ^ s[93], t2 = s[162] ^ s[177], t3 = s[243] ^ s[288];
            final int g = step - 1152;
            if (g >= 0 && (t1 ^ t2 ^ t3)) {
                final int bit = 32 * (g / 32) + 31 - g % 32 - 8 * pos.val;
                if (bit >= 0 && bit < 8 * n.val)
                    o[bit / 8] |= 1 << (bit % 8);
            }
            t1 ^= (s[91] && s[92]) ^ s[171];
            t2 ^= (s[175] && s[176]) ^ s[264];
            t3 ^= (s[286] && s[287]) ^ s[69];
            System.arraycopy(s, 1, s, 2, 287);
            s[1] = t3;
            s[94] = t1;
            s[178] = t2;
        }
        return ints(o);
    }

    public static Value CrcRun(final StringValue var, final Value reg, final Value m) {
        final String v = var.getVal().toString();
        final int[] r = arr(reg);
        final int poly = v.equals("ccitt") ? 0x8408 : v.equals("ibm") ? 0xA001 : v.equals("dnp") ? 0xA6BC : 0xEDB88320;
        int c = r.length == 1 ? r[0] : r[0] << 16 | r[1];
        for (final int b : arr(m)) {
            c ^= b;
            for (int i = 0; i < 8; i++)
                c = (c & 1) == 1 ? (c >>> 1) ^ poly : c >>> 1;
        }
        return r.length == 1 ? ints(new int[] { c }) : ints(new int[] { c >>> 16, c & 0xffff });
    }
}
