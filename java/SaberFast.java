// Java evaluation of the operators of spec/Fast.tla (TLC module overrides).
// Every method computes what the pure TLA+ definition of the same operator says;
// spec/FastCheck.tla compares the two.
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import tlc2.value.Values;
import java.security.MessageDigest;
import javax.crypto.Cipher;
import javax.crypto.spec.SecretKeySpec;
import util.UniqueString;

public class SaberFast implements ITLCOverrides {
    @Override
    public Class[] get() { return new Class[] { SaberFast.class }; }

    static final IntValue[] SMALL = new IntValue[8192];
    static { for (int i = 0; i < SMALL.length; i++) SMALL[i] = IntValue.gen(i); }
    static IntValue iv(int x) { return x >= 0 && x < SMALL.length ? SMALL[x] : IntValue.gen(x); }

    static int[] ints(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        int[] r = new int[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = ((IntValue) t.elems[i]).val;
        return r;
    }
    static byte[] bytes(Value v) {
        int[] a = ints(v);
        byte[] r = new byte[a.length];
        for (int i = 0; i < r.length; i++) {
            if (a[i] < 0 || a[i] > 255) throw new RuntimeException("not a byte: " + a[i]);
            r[i] = (byte) a[i];
        }
        return r;
    }
    static Value seq(byte[] b) { return seq(b, 0, b.length); }
    static Value seq(byte[] b, int off, int n) {
        Value[] e = new Value[n];
        for (int i = 0; i < n; i++) e[i] = SMALL[b[off + i] & 255];
        return new TupleValue(e);
    }
    static Value seq(int[] b) {
        Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) e[i] = iv(b[i]);
        return new TupleValue(e);
    }
    static int num(Value v) { return ((IntValue) v).val; }

    @TLAPlusOperator(identifier = "FFlip", module = "Fast", warn = false)
    public static Value FFlip(final Value b, final Value fs, final Value lane) {
        byte[] r = bytes(b);
        int n = num(lane);
        for (Value f : ((TupleValue) fs.toTuple()).elems) {
            int[] x = ints(f);
            if (x[0] == n) r[x[1]] ^= (byte) x[2];
        }
        return seq(r);
    }

    @TLAPlusOperator(identifier = "FHex", module = "Fast", warn = false)
    public static Value FHex(final Value s) {
        String t = ((StringValue) s).val.toString();
        byte[] r = new byte[t.length() / 2];
        for (int i = 0; i < r.length; i++) {
            int h = "0123456789abcdef".indexOf(t.charAt(2 * i)), l = "0123456789abcdef".indexOf(t.charAt(2 * i + 1));
            if (h < 0 || l < 0) throw new RuntimeException("bad hex");
            r[i] = (byte) (16 * h + l);
        }
        return seq(r);
    }
    @TLAPlusOperator(identifier = "FToHex", module = "Fast", warn = false)
    public static Value FToHex(final Value s) {
        byte[] v = bytes(s);
        char[] c = new char[2 * v.length];
        for (int i = 0; i < v.length; i++) {
            c[2 * i] = "0123456789abcdef".charAt((v[i] >> 4) & 15);
            c[2 * i + 1] = "0123456789abcdef".charAt(v[i] & 15);
        }
        return new StringValue(new String(c));
    }

    // ---------------------------------------------------------------- Keccak
    static final long[] RC = new long[24];
    static final int[] RHO = new int[25];
    static {
        int r = 1; // LFSR of FIPS 202, algorithm 5
        for (int i = 0; i < 24; i++) {
            long c = 0;
            for (int j = 0; j <= 6; j++) {
                if ((r & 1) != 0) c ^= 1L << ((1 << j) - 1);
                r <<= 1;
                if ((r & 256) != 0) r ^= 0x171;
            }
            RC[i] = c;
        }
        int x = 1, y = 0;
        for (int t = 0; t < 24; t++) {
            RHO[5 * y + x] = ((t + 1) * (t + 2) / 2) % 64;
            int nx = y, ny = (2 * x + 3 * y) % 5;
            x = nx; y = ny;
        }
    }
    static void keccakF(long[] a) { keccakP(a, 24); }
    /** the last n rounds of Keccak-f[1600] */
    static void keccakP(long[] a, int n) {
        long[] b = new long[25], c = new long[5];
        for (int r = 24 - n; r < 24; r++) {
            for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
            for (int x = 0; x < 5; x++) {
                long d = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1);
                for (int y = 0; y < 5; y++) a[5 * y + x] ^= d;
            }
            for (int x = 0; x < 5; x++)
                for (int y = 0; y < 5; y++)
                    b[5 * ((2 * x + 3 * y) % 5) + y] = Long.rotateLeft(a[5 * y + x], RHO[5 * y + x]);
            for (int x = 0; x < 5; x++)
                for (int y = 0; y < 5; y++)
                    a[5 * y + x] = b[5 * y + x] ^ (~b[5 * y + (x + 1) % 5] & b[5 * y + (x + 2) % 5]);
            a[0] ^= RC[r];
        }
    }
    static void load(long[] a, byte[] b, int off, int n) {
        for (int i = 0; i < n; i++) a[i / 8] ^= (long) (b[off + i] & 255) << (8 * (i % 8));
    }
    static byte get(long[] a, int i) { return (byte) (a[i / 8] >>> (8 * (i % 8))); }
    static byte[] sponge(int rate, int suffix, byte[] m, int n) {
        long[] a = new long[25];
        int o = 0;
        while (m.length - o >= rate) { load(a, m, o, rate); keccakF(a); o += rate; }
        byte[] last = new byte[rate];
        System.arraycopy(m, o, last, 0, m.length - o);
        last[m.length - o] = (byte) suffix;
        last[rate - 1] ^= (byte) 128;
        load(a, last, 0, rate);
        keccakF(a);
        byte[] out = new byte[n];
        for (int i = 0; i < n; i++) {
            if (i > 0 && i % rate == 0) keccakF(a);
            out[i] = get(a, i % rate);
        }
        return out;
    }
    @TLAPlusOperator(identifier = "FSponge", module = "Fast", warn = false)
    public static Value FSponge(final Value rate, final Value suffix, final Value m, final Value n) {
        return seq(sponge(num(rate), num(suffix), bytes(m), num(n)));
    }
    @TLAPlusOperator(identifier = "FKeccakF", module = "Fast", warn = false)
    public static Value FKeccakF(final Value b) {
        long[] a = new long[25];
        load(a, bytes(b), 0, 200);
        keccakF(a);
        byte[] r = new byte[200];
        for (int i = 0; i < 200; i++) r[i] = get(a, i);
        return seq(r);
    }

    @TLAPlusOperator(identifier = "FKeccakP", module = "Fast", warn = false)
    public static Value FKeccakP(final Value b, final Value n) {
        long[] a = new long[25];
        load(a, bytes(b), 0, 200);
        keccakP(a, num(n));
        byte[] r = new byte[200];
        for (int i = 0; i < 200; i++) r[i] = get(a, i);
        return seq(r);
    }

    // ------------------------------------------------------------ SHA-2, AES (JDK)
    @TLAPlusOperator(identifier = "FSha256", module = "Fast", warn = false)
    public static Value FSha256(final Value m) throws Exception {
        return seq(MessageDigest.getInstance("SHA-256").digest(bytes(m)));
    }
    @TLAPlusOperator(identifier = "FSha512", module = "Fast", warn = false)
    public static Value FSha512(final Value m) throws Exception {
        return seq(MessageDigest.getInstance("SHA-512").digest(bytes(m)));
    }
    static void repeat(byte[] p, long n, MessageDigest d) {
        byte[] chunk = new byte[p.length * (1 + 65536 / p.length)];
        for (int i = 0; i < chunk.length; i++) chunk[i] = p[i % p.length];
        for (; n >= chunk.length; n -= chunk.length) d.update(chunk);
        d.update(chunk, 0, (int) n);
    }
    @TLAPlusOperator(identifier = "FRepSha256", module = "Fast", warn = false)
    public static Value FRepSha256(final Value pat, final Value len) throws Exception {
        MessageDigest d = MessageDigest.getInstance("SHA-256");
        repeat(bytes(pat), num(len), d);
        return seq(d.digest());
    }
    @TLAPlusOperator(identifier = "FRepSha512", module = "Fast", warn = false)
    public static Value FRepSha512(final Value pat, final Value len) throws Exception {
        MessageDigest d = MessageDigest.getInstance("SHA-512");
        repeat(bytes(pat), num(len), d);
        return seq(d.digest());
    }
    @TLAPlusOperator(identifier = "FRepSponge", module = "Fast", warn = false)
    public static Value FRepSponge(final Value rate, final Value suffix, final Value pat, final Value len, final Value n) {
        byte[] p = bytes(pat);
        byte[] m = new byte[num(len)];
        for (int i = 0; i < m.length; i++) m[i] = p[i % p.length];
        return seq(sponge(num(rate), num(suffix), m, num(n)));
    }
    static Cipher aes(byte[] key) throws Exception {
        if (key.length != 32) throw new RuntimeException("key length");
        Cipher c = Cipher.getInstance("AES/ECB/NoPadding");
        c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(key, "AES"));
        return c;
    }
    @TLAPlusOperator(identifier = "FAes256", module = "Fast", warn = false)
    public static Value FAes256(final Value key, final Value block) throws Exception {
        return seq(aes(bytes(key)).doFinal(bytes(block)));
    }
    @TLAPlusOperator(identifier = "FCtrStream", module = "Fast", warn = false)
    public static Value FCtrStream(final Value key, final Value ctr, final Value width, final Value len) throws Exception {
        byte[] c = bytes(ctr);
        int w = num(width), n = num(len), blocks = (n + 15) / 16;
        if (c.length != 16) throw new RuntimeException("counter block length");
        byte[] in = new byte[16 * blocks];
        for (int b = 0; b < blocks; b++) {
            System.arraycopy(c, 0, in, 16 * b, 16);
            for (int i = 15; i >= 16 - w; i--) if (++c[i] != 0) break;
        }
        return seq(aes(bytes(key)).doFinal(in), 0, n);
    }

    // ------------------------------------------------------------ ring, packing
    @TLAPlusOperator(identifier = "FPolyMul", module = "Fast", warn = false)
    public static Value FPolyMul(final Value av, final Value bv, final Value qv) {
        int[] a = ints(av), b = ints(bv);
        int q = num(qv), n = a.length;
        long[] c = new long[n];
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) {
                long t = (long) a[i] * b[j];
                if (i + j < n) c[i + j] += t; else c[i + j - n] -= t;
            }
        int[] r = new int[n];
        for (int i = 0; i < n; i++) r[i] = (int) Math.floorMod(c[i], (long) q);
        return seq(r);
    }
    @TLAPlusOperator(identifier = "FInner", module = "Fast", warn = false)
    public static Value FInner(final Value uv, final Value vv, final Value qv) {
        TupleValue u = (TupleValue) uv.toTuple(), v = (TupleValue) vv.toTuple();
        long q = num(qv);
        if (u.elems.length != v.elems.length || u.elems.length == 0) throw new RuntimeException("inner: lengths");
        int n = ints(u.elems[0]).length;
        long[] c = new long[n];
        for (int k = 0; k < u.elems.length; k++) {
            int[] a = ints(u.elems[k]), b = ints(v.elems[k]);
            for (int i = 0; i < n; i++)
                for (int j = 0; j < n; j++) {
                    long t = (long) a[i] * b[j];
                    if (i + j < n) c[i + j] += t; else c[i + j - n] -= t;
                }
        }
        int[] r = new int[n];
        for (int i = 0; i < n; i++) r[i] = (int) Math.floorMod(c[i], q);
        return seq(r);
    }
    @TLAPlusOperator(identifier = "FPack", module = "Fast", warn = false)
    public static Value FPack(final Value wv, final Value av) {
        int w = num(wv);
        int[] a = ints(av);
        byte[] r = new byte[w * a.length / 8];
        for (int i = 0; i < 8 * r.length; i++)
            if (((a[i / w] >> (i % w)) & 1) != 0) r[i / 8] |= (byte) (1 << (i % 8));
        return seq(r);
    }
    @TLAPlusOperator(identifier = "FUnpack", module = "Fast", warn = false)
    public static Value FUnpack(final Value wv, final Value bv) {
        int w = num(wv);
        byte[] b = bytes(bv);
        int[] r = new int[8 * b.length / w];
        for (int c = 0; c < r.length; c++)
            for (int k = 0; k < w; k++) {
                int i = w * c + k;
                r[c] |= ((b[i / 8] >> (i % 8)) & 1) << k;
            }
        return seq(r);
    }
}
