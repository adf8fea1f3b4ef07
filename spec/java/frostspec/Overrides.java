package frostspec;

import java.math.BigInteger;
import java.util.Base64;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** The interpretation of the operators that spec/Crypto.tla declares. */
public class Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() { return new Class[] {Overrides.class}; }

    private static String s(Value v) { return ((StringValue) v).val.toString(); }
    private static StringValue str(String s) { return new StringValue(s); }
    private static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }
    private static final ConcurrentHashMap<String, String> MEMO = new ConcurrentHashMap<>();
    private static String memo(String key, java.util.function.Supplier<String> f) {
        String r = MEMO.get(key);
        if (r == null) {
            r = f.get();
            if (MEMO.size() > 400000) MEMO.clear();
            MEMO.put(key, r);
        }
        return r;
    }

    // bytes
    @TLAPlusOperator(identifier = "Cat", module = "Crypto", warn = false)
    public static Value cat(Value v) {
        StringBuilder b = new StringBuilder();
        for (Value e : seq(v)) b.append(s(e));
        return str(b.toString());
    }
    @TLAPlusOperator(identifier = "Bytes", module = "Crypto", warn = false)
    public static Value bytes(Value h) { return IntValue.gen(s(h).length() / 2); }
    @TLAPlusOperator(identifier = "Slice", module = "Crypto", warn = false)
    public static Value slice(Value h, Value from, Value n) {
        int a = 2 * ((IntValue) from).val, l = 2 * ((IntValue) n).val;
        String x = s(h);
        a = Math.min(a, x.length());
        return str(x.substring(a, Math.min(x.length(), a + l)));
    }
    @TLAPlusOperator(identifier = "From", module = "Crypto", warn = false)
    public static Value from(Value h, Value from) {
        String x = s(h);
        return str(x.substring(Math.min(x.length(), 2 * ((IntValue) from).val)));
    }
    @TLAPlusOperator(identifier = "U16", module = "Crypto", warn = false)
    public static Value u16(Value n) { return str(String.format("%04x", ((IntValue) n).val & 0xffff)); }
    @TLAPlusOperator(identifier = "Num", module = "Crypto", warn = false)
    public static Value num(Value h) { return IntValue.gen((int) Long.parseLong("0" + s(h), 16)); }
    @TLAPlusOperator(identifier = "IsPrefix", module = "Crypto", warn = false)
    public static Value isPrefix(Value a, Value b) { return bool(s(b).startsWith(s(a))); }
    @TLAPlusOperator(identifier = "Contains", module = "Crypto", warn = false)
    public static Value contains(Value hay, Value needle) { return bool(s(hay).contains(s(needle))); }
    @TLAPlusOperator(identifier = "IndexOf", module = "Crypto", warn = false)
    public static Value indexOf(Value hay, Value needle) {
        int i = s(hay).indexOf(s(needle));
        while (i >= 0 && i % 2 != 0) i = s(hay).indexOf(s(needle), i + 1);
        return IntValue.gen(i < 0 ? -1 : i / 2);
    }
    @TLAPlusOperator(identifier = "Base64", module = "Crypto", warn = false)
    public static Value base64(Value h) { return str(Base64.getEncoder().encodeToString(Ed.unhex(s(h)))); }
    @TLAPlusOperator(identifier = "HexOfText", module = "Crypto", warn = false)
    public static Value hexOfText(Value t) {
        return str(Ed.hex(s(t).getBytes(java.nio.charset.StandardCharsets.UTF_8)));
    }
    @TLAPlusOperator(identifier = "Dec", module = "Crypto", warn = false)
    public static Value dec(Value n) { return str(n.toString()); }

    @TLAPlusOperator(identifier = "Rev", module = "Crypto", warn = false)
    public static Value rev(Value h) { return str(rev(s(h))); }
    private static String rev(String x) {
        StringBuilder b = new StringBuilder();
        for (int i = x.length() - 2; i >= 0; i -= 2) b.append(x, i, i + 2);
        return b.toString();
    }
    private static String list(String h, String sep, boolean hex) {
        StringBuilder b = new StringBuilder();
        byte[] x = Ed.unhex(h);
        for (int i = 0; i < x.length; i++) {
            if (i > 0) b.append(sep);
            b.append(hex ? "0x" + Integer.toHexString(x[i] & 255) : "" + (x[i] & 255));
        }
        return b.toString();
    }
    @TLAPlusOperator(identifier = "TextLeaks", module = "Crypto", warn = false)
    public static Value textLeaks(Value t, Value h) {
        String x = s(t), low = x.toLowerCase(), a = s(h);
        for (String v : new String[] {a, rev(a)}) {
            byte[] b = Ed.unhex(v);
            String b64 = Base64.getEncoder().encodeToString(b).replace("=", "");
            if (low.contains(v) || x.contains(b64) || x.contains(b64.replace('+', '-').replace('/', '_')) || low.contains(list(v, " ", false))
                || low.contains(list(v, ", ", false)) || low.contains(list(v, ",", false)) || low.contains(list(v, ", ", true))
                || x.contains(new BigInteger(1, b).toString())) return BoolValue.ValTrue;
        }
        return BoolValue.ValFalse;
    }

    // hash
    @TLAPlusOperator(identifier = "Sha512", module = "Crypto", warn = false)
    public static Value sha512(Value h) { return str(Ed.hex(Ed.sha512(Ed.unhex(s(h))))); }

    // scalars
    @TLAPlusOperator(identifier = "IsScalar", module = "Crypto", warn = false)
    public static Value isScalar(Value h) {
        String x = s(h);
        return bool(x.length() == 64 && Ed.le(Ed.unhex(x)).compareTo(Ed.Q) < 0);
    }
    @TLAPlusOperator(identifier = "Reduce", module = "Crypto", warn = false)
    public static Value reduce(Value h) { return str(Ed.scalar(Ed.le(Ed.unhex(s(h))))); }
    @TLAPlusOperator(identifier = "SInt", module = "Crypto", warn = false)
    public static Value sInt(Value n) { return str(Ed.scalar(BigInteger.valueOf(((IntValue) n).val))); }
    @TLAPlusOperator(identifier = "SAdd", module = "Crypto", warn = false)
    public static Value sAdd(Value a, Value b) { return str(Ed.scalar(Ed.scalar(s(a)).add(Ed.scalar(s(b))))); }
    @TLAPlusOperator(identifier = "SSub", module = "Crypto", warn = false)
    public static Value sSub(Value a, Value b) { return str(Ed.scalar(Ed.scalar(s(a)).subtract(Ed.scalar(s(b))))); }
    @TLAPlusOperator(identifier = "SMul", module = "Crypto", warn = false)
    public static Value sMul(Value a, Value b) { return str(Ed.scalar(Ed.scalar(s(a)).multiply(Ed.scalar(s(b))))); }
    @TLAPlusOperator(identifier = "SInv", module = "Crypto", warn = false)
    public static Value sInv(Value a) { return str(Ed.scalar(Ed.scalar(s(a)).modInverse(Ed.Q))); }

    // group elements
    @TLAPlusOperator(identifier = "IsPoint", module = "Crypto", warn = false)
    public static Value isPoint(Value h) {
        String x = s(h);
        if (x.length() != 64) return BoolValue.ValFalse;
        try { Ed.point(x); return BoolValue.ValTrue; } catch (IllegalArgumentException e) { return BoolValue.ValFalse; }
    }
    @TLAPlusOperator(identifier = "PAdd", module = "Crypto", warn = false)
    public static Value pAdd(Value a, Value b) { return str(Ed.point(Ed.padd(Ed.point(s(a)), Ed.point(s(b))))); }
    @TLAPlusOperator(identifier = "PSub", module = "Crypto", warn = false)
    public static Value pSub(Value a, Value b) { return str(Ed.point(Ed.padd(Ed.point(s(a)), Ed.pneg(Ed.point(s(b)))))); }
    @TLAPlusOperator(identifier = "PMul", module = "Crypto", warn = false)
    public static Value pMul(Value k, Value p) {
        String a = s(k), b = s(p);
        return str(memo("m" + a + b, () -> Ed.point(Ed.pmul(Ed.scalar(a), Ed.point(b)))));
    }
    @TLAPlusOperator(identifier = "PBase", module = "Crypto", warn = false)
    public static Value pBase(Value k) {
        String a = s(k);
        return str(memo("b" + a, () -> Ed.point(Ed.pbase(Ed.scalar(a)))));
    }
    /** Horner evaluation in the exponent: sum of coeffs[j] * x^(j-1), x a small integer. */
    @TLAPlusOperator(identifier = "PEval", module = "Crypto", warn = false)
    public static Value pEval(Value coeffs, Value x) {
        Value[] c = seq(coeffs);
        StringBuilder key = new StringBuilder("e").append(((IntValue) x).val).append(':');
        for (Value e : c) key.append(s(e));
        BigInteger n = BigInteger.valueOf(((IntValue) x).val);
        return str(memo(key.toString(), () -> {
            Ed.Pt r = Ed.ID;
            for (int i = c.length - 1; i >= 0; i--) r = Ed.padd(Ed.pmul(n, r), Ed.point(s(c[i])));
            return Ed.point(r);
        }));
    }
    @TLAPlusOperator(identifier = "PUniform", module = "Crypto", warn = false)
    public static Value pUniform(Value h) {
        byte[] b = Ed.unhex(s(h)), x = new byte[32], y = new byte[32];
        System.arraycopy(b, 0, x, 0, 32);
        System.arraycopy(b, 32, y, 0, 32);
        x[31] &= 0x7f;
        y[31] &= 0x7f;
        return str(Ed.point(Ed.padd(Ed.map(Ed.le(x).mod(Ed.P)), Ed.map(Ed.le(y).mod(Ed.P)))));
    }
    @TLAPlusOperator(identifier = "EdEncode", module = "Crypto", warn = false)
    public static Value edEncode(Value p) {
        String a = s(p);
        return str(memo("d" + a, () -> Ed.hex(Ed.edEncode(Ed.point(a)))));
    }
    /** The ristretto encoding of the element a (valid) Ed25519 point encoding represents, or "" */
    @TLAPlusOperator(identifier = "EdDecode", module = "Crypto", warn = false)
    public static Value edDecode(Value h) {
        Ed.Pt p = Ed.edDecode(Ed.unhex(s(h)));
        // 8^-1 * 8 * p removes the torsion component
        return str(p == null ? "" : Ed.point(Ed.pmul(Ed.EIGHT_INV, Ed.pdbl(Ed.pdbl(Ed.pdbl(p))))));
    }
}
