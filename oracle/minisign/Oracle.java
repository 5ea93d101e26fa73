package minisign;

import java.util.LinkedHashMap;
import java.util.Map;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Java definitions of the operators of Oracle.tla: byte sequences are TLA+ sequences of 0..255. */
public final class Oracle {
    private static final IntValue[] INTS = new IntValue[256];

    static {
        for (int i = 0; i < 256; i++) INTS[i] = IntValue.gen(i);
    }

    private static Value seq(byte[] b) {
        Value[] v = new Value[b.length];
        for (int i = 0; i < b.length; i++) v[i] = INTS[b[i] & 0xff];
        return new TupleValue(v);
    }

    private static byte[] bytes(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("not a byte sequence: " + v);
        byte[] b = new byte[t.elems.length];
        for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) t.elems[i]).val;
        return b;
    }

    private static String str(Value v) {
        return ((StringValue) v).val.toString();
    }

    private static int num(Value v) {
        return ((IntValue) v).val;
    }

    private static Value bool(boolean b) {
        return b ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    private static final Map<String, byte[]> DATA = new LinkedHashMap<>(16, 0.75f, true) {
        protected boolean removeEldestEntry(Map.Entry<String, byte[]> e) {
            return size() > 16;
        }
    };
    private static final Map<String, Value> HASHES = new LinkedHashMap<>(16, 0.75f, true) {
        protected boolean removeEldestEntry(Map.Entry<String, Value> e) {
            return size() > 20000;
        }
    };

    private static synchronized byte[] data(String d) {
        byte[] b = DATA.get(d);
        if (b == null) {
            b = Crypto.expand(d);
            DATA.put(d, b);
        }
        return b;
    }

    private static boolean big(Value d) {
        return str(d).startsWith("Z");
    }

    private static byte[] from(Value d, Value start) {
        if (big(d)) throw new RuntimeException("too large: " + d);
        byte[] b = data(str(d));
        int s = Math.min(num(start), b.length);
        return s == 0 ? b : java.util.Arrays.copyOfRange(b, s, b.length);
    }

    @TLAPlusOperator(identifier = "Hex", module = "Oracle", warn = false)
    public static Value hexToBytes(final Value s) {
        return seq(Crypto.hex(str(s)));
    }

    @TLAPlusOperator(identifier = "ToHex", module = "Oracle", warn = false)
    public static Value bytesToHex(final Value s) {
        return new StringValue(Crypto.hex(bytes(s)));
    }

    @TLAPlusOperator(identifier = "Blake2b", module = "Oracle", warn = false)
    public static Value blake2b(final Value n, final Value s) {
        return seq(Crypto.blake2b(num(n), bytes(s)));
    }

    @TLAPlusOperator(identifier = "EdVerify", module = "Oracle", warn = false)
    public static synchronized Value edVerify(final Value pk, final Value msg, final Value sig) {
        return bool(Crypto.edVerify(bytes(pk), bytes(msg), bytes(sig)));
    }

    @TLAPlusOperator(identifier = "EdPub", module = "Oracle", warn = false)
    public static Value edPub(final Value seed) {
        return seq(Crypto.edPub(bytes(seed)));
    }

    @TLAPlusOperator(identifier = "Scrypt", module = "Oracle", warn = false)
    public static synchronized Value scrypt(final Value pw, final Value salt, final Value logn, final Value r, final Value p,
        final Value len) {
        return seq(Crypto.scrypt(bytes(pw), bytes(salt), num(logn), num(r), num(p), num(len)));
    }

    @TLAPlusOperator(identifier = "DataLen", module = "Oracle", warn = false)
    public static Value dataLen(final Value d) {
        return IntValue.gen(big(d) ? (int) Math.min(new Crypto.Sparse(str(d)).len, Integer.MAX_VALUE) : data(str(d)).length);
    }

    @TLAPlusOperator(identifier = "DataBytes", module = "Oracle", warn = false)
    public static Value dataBytes(final Value d, final Value start) {
        return seq(from(d, start));
    }

    @TLAPlusOperator(identifier = "DataHash", module = "Oracle", warn = false)
    public static synchronized Value dataHash(final Value d, final Value start) {
        String k = str(d) + "@" + num(start);
        Value v = HASHES.get(k);
        if (v == null) {
            if (big(d) && num(start) != 0) throw new RuntimeException("start: " + d);
            v = seq(big(d) ? Crypto.Sparse.hash(new Crypto.Sparse(str(d))) : Crypto.blake2b(64, from(d, start)));
            HASHES.put(k, v);
        }
        return v;
    }

    /** EdVerify over the bytes of the data themselves */
    @TLAPlusOperator(identifier = "DataEdVerify", module = "Oracle", warn = false)
    public static synchronized Value dataEdVerify(final Value pk, final Value d, final Value start, final Value sig) {
        if (big(d)) {
            Crypto.Sparse x = new Crypto.Sparse(str(d));
            return bool(Crypto.edVerify(bytes(pk), x.name + "@" + num(start), m -> x.stream(num(start), (b, n) -> m.update(b, 0, n)), bytes(sig)));
        }
        return bool(Crypto.edVerify(bytes(pk), from(d, start), bytes(sig)));
    }

    /** fingerprint of the first n bytes from start on (of all of them if there are fewer) */
    @TLAPlusOperator(identifier = "DataFp", module = "Oracle", warn = false)
    public static Value dataFp(final Value d, final Value start, final Value n) {
        byte[] b = from(d, start);
        if (num(n) < b.length) b = java.util.Arrays.copyOf(b, num(n));
        return new StringValue(Crypto.fingerprint(b));
    }

    private static boolean occurs(byte[] p, byte[] t) {
        outer:
        for (int i = 0; i + p.length <= t.length; i++) {
            for (int j = 0; j < p.length; j++) if (t[i + j] != p[j]) continue outer;
            return true;
        }
        return false;
    }

    private static final java.util.Map<String, java.util.List<java.util.List<byte[]>>> FORMS = new LinkedHashMap<>();
    private static final java.nio.charset.Charset L1 = java.nio.charset.StandardCharsets.ISO_8859_1;

    private static byte[] rev(byte[] b) {
        byte[] r = new byte[b.length];
        for (int j = 0; j < b.length; j++) r[j] = b[b.length - 1 - j];
        return r;
    }

    private static String number(byte[] b) {
        java.math.BigInteger n = new java.math.BigInteger(1, b);
        return n.signum() == 0 ? "" : n.toString();
    }

    private static String magnitude(byte[] b) {
        java.math.BigInteger n = new java.math.BigInteger(b).abs();
        return n.signum() == 0 ? "" : n.toString();
    }

    private static java.util.List<byte[]> list(java.util.Set<String> f) {
        java.util.List<byte[]> l = new java.util.ArrayList<>();
        for (String x : f) l.add(x.getBytes(L1));
        return l;
    }

    /** the forms of Leaks.tla: in the text, in its hexadecimal digits, in its decimal digits */
    private static synchronized java.util.List<java.util.List<byte[]>> forms(byte[] s) {
        String key = Crypto.hex(s);
        java.util.List<java.util.List<byte[]>> l = FORMS.get(key);
        if (l != null) return l;
        java.util.LinkedHashSet<String> plain = new java.util.LinkedHashSet<>(), hex = new java.util.LinkedHashSet<>(), dec = new java.util.LinkedHashSet<>();
        int w = Math.min(8, s.length);
        if (w >= 6) {
            for (int i = 0; i + w <= s.length; i++) {
                byte[] p = java.util.Arrays.copyOfRange(s, i, i + w), r = rev(p);
                plain.add(new String(p, L1));
                plain.add(new String(r, L1));
                StringBuilder un = new StringBuilder(), de = new StringBuilder(), si = new StringBuilder();
                for (int j = 0; j < w; j++) {
                    int b = p[j] & 0xff;
                    un.append(Integer.toHexString(b));
                    de.append(b);
                    si.append(Math.abs(p[j]));
                }
                hex.add(Crypto.hex(p));
                hex.add(Crypto.hex(r));
                if (un.length() >= 12) hex.add(un.toString());
                java.util.List<String> ns = new java.util.ArrayList<>(java.util.List.of(de.toString(), si.toString()));
                if (w == 8) {
                    byte[] h1 = java.util.Arrays.copyOfRange(p, 0, 4), h2 = java.util.Arrays.copyOfRange(p, 4, 8);
                    ns.addAll(java.util.List.of(number(p), number(r), magnitude(p), magnitude(r), number(h1) + number(h2), number(rev(h1)) + number(rev(h2)),
                        magnitude(h1) + magnitude(h2), magnitude(rev(h1)) + magnitude(rev(h2))));
                }
                for (String n : ns) if (n.length() >= 2 * w) dec.add(n);
            }
            for (int i = 0; i + 9 <= s.length; i++) {
                String b = java.util.Base64.getEncoder().encodeToString(java.util.Arrays.copyOfRange(s, i, i + 9));
                plain.add(b);
                plain.add(b.replace('+', '-').replace('/', '_'));
            }
        }
        l = java.util.List.of(list(plain), list(hex), list(dec));
        FORMS.put(key, l);
        return l;
    }

    private static final java.util.Map<String, byte[][]> DIGITS = new java.util.LinkedHashMap<>() {
        protected boolean removeEldestEntry(java.util.Map.Entry<String, byte[][]> e) {
            return size() > 64;
        }
    };

    private static synchronized byte[][] digits(byte[] t) {
        String s = new String(t, L1);
        byte[][] r = DIGITS.get(s);
        if (r == null) {
            StringBuilder h = new StringBuilder(), d = new StringBuilder();
            for (int i = 0; i < t.length; i++) {
                char c = (char) (t[i] & 0xff);
                if (c >= '0' && c <= '9') d.append(c);
                if (c == '0' && i + 1 < t.length && t[i + 1] == 'x') continue;
                if (c >= 'A' && c <= 'F') c += 32;
                if (c >= '0' && c <= '9' || c >= 'a' && c <= 'f') h.append(c);
            }
            r = new byte[][] {t, h.toString().getBytes(L1), d.toString().getBytes(L1)};
            DIGITS.put(s, r);
        }
        return r;
    }

    @TLAPlusOperator(identifier = "Reveals", module = "Oracle", warn = false)
    public static Value reveals(final Value text, final Value secret) {
        byte[][] t = digits(bytes(text));
        java.util.List<java.util.List<byte[]>> f = forms(bytes(secret));
        for (int k = 0; k < 3; k++) for (byte[] x : f.get(k)) if (occurs(x, t[k])) return BoolValue.ValTrue;
        return BoolValue.ValFalse;
    }
}
