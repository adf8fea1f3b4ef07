package frostspec;

import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.concurrent.ConcurrentHashMap;

/**
 * Arithmetic for the specification: integers modulo the group order, the edwards25519 curve and
 * the ristretto255 encoding of RFC 9496, written from the RFCs on java.math.BigInteger only.
 * It shares no code with the implementation under test.
 */
final class Ed {
    static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE, TWO = BigInteger.TWO;
    static final BigInteger P = TWO.pow(255).subtract(BigInteger.valueOf(19));
    static final BigInteger Q = TWO.pow(252).add(new BigInteger("27742317777372353535851937790883648493"));
    static final BigInteger D = new BigInteger("37095705934669439343138083508754565189542113879843219016388785533085940283555");
    static final BigInteger SQRT_M1 = new BigInteger("19681161376707505956807079304988542015446066515923890162744021073123829784752");
    static final BigInteger SQRT_AD_MINUS_ONE = new BigInteger("25063068953384623474111414158702152701244531502492656460079210482610430750235");
    static final BigInteger INVSQRT_A_MINUS_D = new BigInteger("54469307008909316920995813868745141605393597292927456921205312896311721017578");
    static final BigInteger ONE_MINUS_D_SQ = new BigInteger("1159843021668779879193775521855586647937357759715417654439879720876111806838");
    static final BigInteger D_MINUS_ONE_SQ = new BigInteger("40440834346308536858101042469323190826248399146238708352240133220865137265952");
    static final BigInteger BX = new BigInteger("15112221349535400772501151409588531511454012693041857206046113283949847762202");
    static final BigInteger BY = new BigInteger("46316835694926478169428394003475163141307993866256225615783033603165251855960");
    static final BigInteger EIGHT_INV = BigInteger.valueOf(8).modInverse(Q);

    static BigInteger m(BigInteger a, BigInteger b) { return fold(a.multiply(b)); }
    // reduction of a product modulo 2^255-19
    private static final BigInteger MASK = TWO.pow(255).subtract(ONE);
    private static final BigInteger C19 = BigInteger.valueOf(19);
    static BigInteger fold(BigInteger x) {
        BigInteger hi = x.shiftRight(255);
        if (hi.signum() == 0) return x.compareTo(P) >= 0 ? x.subtract(P) : x;
        x = x.and(MASK).add(hi.multiply(C19));
        hi = x.shiftRight(255);
        if (hi.signum() != 0) x = x.and(MASK).add(hi.multiply(C19));
        return x.compareTo(P) >= 0 ? x.subtract(P) : x;
    }
    static BigInteger add(BigInteger a, BigInteger b) { BigInteger r = a.add(b); return r.compareTo(P) >= 0 ? r.subtract(P) : r; }
    static BigInteger sub(BigInteger a, BigInteger b) { BigInteger r = a.subtract(b); return r.signum() < 0 ? r.add(P) : r; }
    static BigInteger neg(BigInteger a) { return a.signum() == 0 ? a : P.subtract(a); }
    static boolean odd(BigInteger a) { return a.testBit(0); }
    static BigInteger abs(BigInteger a) { return odd(a) ? neg(a) : a; }

    private static final BigInteger E58 = P.subtract(BigInteger.valueOf(5)).shiftRight(3);
    /** SQRT_RATIO_M1 of RFC 9496, section 4.2; result[0] is null if u/v is not a square. */
    static BigInteger[] sqrtRatio(BigInteger u, BigInteger v) {
        BigInteger v3 = m(m(v, v), v), v7 = m(m(v3, v3), v);
        BigInteger r = m(m(u, v3), m(u, v7).modPow(E58, P));
        BigInteger check = m(v, m(r, r));
        BigInteger nu = neg(u), nui = m(nu, SQRT_M1);
        boolean correct = check.equals(u), flipped = check.equals(nu), flippedI = check.equals(nui);
        if (flipped || flippedI) r = m(r, SQRT_M1);
        return new BigInteger[] {(correct || flipped) ? ONE : null, abs(r)};
    }

    /** A point in extended coordinates. */
    static final class Pt {
        final BigInteger x, y, z, t;
        Pt(BigInteger x, BigInteger y, BigInteger z, BigInteger t) { this.x = x; this.y = y; this.z = z; this.t = t; }
    }
    static final Pt ID = new Pt(ZERO, ONE, ONE, ZERO);
    static final Pt B = new Pt(BX, BY, ONE, m(BX, BY));
    private static final BigInteger D2 = add(D, D);

    static Pt padd(Pt p, Pt q) {
        BigInteger a = m(sub(p.y, p.x), sub(q.y, q.x)), b = m(add(p.y, p.x), add(q.y, q.x));
        BigInteger c = m(m(p.t, D2), q.t), d = m(add(p.z, p.z), q.z);
        BigInteger e = sub(b, a), f = sub(d, c), g = add(d, c), h = add(b, a);
        return new Pt(m(e, f), m(g, h), m(f, g), m(e, h));
    }
    static Pt pdbl(Pt p) {
        BigInteger a = m(p.x, p.x), b = m(p.y, p.y), zz = m(p.z, p.z), c = add(zz, zz);
        BigInteger h = add(a, b), s = add(p.x, p.y), e = sub(h, m(s, s)), g = sub(a, b), f = add(c, g);
        return new Pt(m(e, f), m(g, h), m(f, g), m(e, h));
    }
    static Pt pneg(Pt p) { return new Pt(neg(p.x), p.y, p.z, neg(p.t)); }
    static Pt pmul(BigInteger k, Pt p) {
        int n = k.bitLength();
        if (n == 0) return ID;
        if (n <= 20) {
            Pt r = ID;
            for (int i = n - 1; i >= 0; i--) { r = pdbl(r); if (k.testBit(i)) r = padd(r, p); }
            return r;
        }
        Pt[] tab = new Pt[16];
        tab[0] = ID; tab[1] = p;
        for (int i = 2; i < 16; i++) tab[i] = padd(tab[i - 1], p);
        Pt r = ID;
        for (int i = (n + 3) / 4 - 1; i >= 0; i--) {
            r = pdbl(pdbl(pdbl(pdbl(r))));
            int w = (k.testBit(4 * i) ? 1 : 0) | (k.testBit(4 * i + 1) ? 2 : 0) | (k.testBit(4 * i + 2) ? 4 : 0) | (k.testBit(4 * i + 3) ? 8 : 0);
            if (w != 0) r = padd(r, tab[w]);
        }
        return r;
    }
    private static final Pt[][] BASE = new Pt[64][16];
    static {
        Pt p = B;
        for (int i = 0; i < 64; i++) {
            BASE[i][0] = ID;
            for (int j = 1; j < 16; j++) BASE[i][j] = padd(BASE[i][j - 1], p);
            p = padd(BASE[i][15], p);
        }
    }
    static Pt pbase(BigInteger k) {
        Pt r = ID;
        for (int i = 0; i < 64; i++) {
            int w = (k.testBit(4 * i) ? 1 : 0) | (k.testBit(4 * i + 1) ? 2 : 0) | (k.testBit(4 * i + 2) ? 4 : 0) | (k.testBit(4 * i + 3) ? 8 : 0);
            if (w != 0) r = padd(r, BASE[i][w]);
        }
        return r;
    }

    /** DECODE of RFC 9496, section 4.3.1; null if the string is not a canonical encoding. */
    static Pt decode(byte[] in) {
        if (in.length != 32) return null;
        BigInteger s = le(in);
        if (s.compareTo(P) >= 0 || odd(s)) return null;
        BigInteger ss = m(s, s), u1 = sub(ONE, ss), u2 = add(ONE, ss), u2s = m(u2, u2);
        BigInteger v = sub(neg(m(D, m(u1, u1))), u2s);
        BigInteger[] sr = sqrtRatio(ONE, m(v, u2s));
        BigInteger inv = sr[1], dx = m(inv, u2), dy = m(m(inv, dx), v);
        BigInteger x = abs(m(add(s, s), dx)), y = m(u1, dy), t = m(x, y);
        if (sr[0] == null || odd(t) || y.signum() == 0) return null;
        return new Pt(x, y, ONE, t);
    }
    /** ENCODE of RFC 9496, section 4.3.2. */
    static byte[] encode(Pt p) {
        BigInteger u1 = m(add(p.z, p.y), sub(p.z, p.y)), u2 = m(p.x, p.y);
        BigInteger inv = sqrtRatio(ONE, m(u1, m(u2, u2)))[1];
        BigInteger den1 = m(inv, u1), den2 = m(inv, u2), zinv = m(m(den1, den2), p.t);
        BigInteger ix = m(p.x, SQRT_M1), iy = m(p.y, SQRT_M1), ench = m(den1, INVSQRT_A_MINUS_D);
        boolean rotate = odd(m(p.t, zinv));
        BigInteger x = rotate ? iy : p.x, y = rotate ? ix : p.y, dinv = rotate ? ench : den2;
        if (odd(m(x, zinv))) y = neg(y);
        return le32(abs(m(dinv, sub(p.z, y))));
    }
    static Pt map(BigInteger t) {
        BigInteger r = m(SQRT_M1, m(t, t)), u = m(add(r, ONE), ONE_MINUS_D_SQ);
        BigInteger v = m(sub(neg(ONE), m(r, D)), add(r, D));
        BigInteger[] sr = sqrtRatio(u, v);
        BigInteger s = sr[1], c = neg(ONE);
        if (sr[0] == null) { s = neg(abs(m(s, t))); c = r; }
        BigInteger n = sub(m(m(c, sub(r, ONE)), D_MINUS_ONE_SQ), v);
        BigInteger ss = m(s, s), w0 = m(add(s, s), v), w1 = m(n, SQRT_AD_MINUS_ONE), w2 = sub(ONE, ss), w3 = add(ONE, ss);
        return new Pt(m(w0, w3), m(w2, w1), m(w1, w3), m(w0, w2));
    }
    /** The Ed25519 encoding of the torsion-free representative. */
    static byte[] edEncode(Pt p) {
        Pt q = pmul(EIGHT_INV, pdbl(pdbl(pdbl(p))));
        BigInteger zi = q.z.modInverse(P), x = m(q.x, zi), y = m(q.y, zi);
        byte[] b = le32(y);
        if (odd(x)) b[31] |= (byte) 0x80;
        return b;
    }
    /** RFC 8032 decoding of a curve point (not reduced to the prime-order subgroup); null if invalid. */
    static Pt edDecode(byte[] in) {
        if (in.length != 32) return null;
        byte[] c = in.clone();
        boolean sign = (c[31] & 0x80) != 0;
        c[31] &= 0x7f;
        BigInteger y = le(c).mod(P), yy = m(y, y);
        BigInteger[] sr = sqrtRatio(sub(yy, ONE), add(m(D, yy), ONE));
        if (sr[0] == null) return null;
        BigInteger x = sr[1];
        if (sign) x = neg(x);
        return new Pt(x, y, ONE, m(x, y));
    }

    static BigInteger le(byte[] b) {
        byte[] r = new byte[b.length];
        for (int i = 0; i < b.length; i++) r[i] = b[b.length - 1 - i];
        return new BigInteger(1, r);
    }
    static byte[] le32(BigInteger v) {
        byte[] r = new byte[32], b = v.toByteArray();
        for (int i = 0; i < b.length && i < 32; i++) r[i] = b[b.length - 1 - i];
        return r;
    }
    private static final char[] HEX = "0123456789abcdef".toCharArray();
    static String hex(byte[] b) {
        char[] c = new char[2 * b.length];
        for (int i = 0; i < b.length; i++) { c[2 * i] = HEX[(b[i] >> 4) & 15]; c[2 * i + 1] = HEX[b[i] & 15]; }
        return new String(c);
    }
    static byte[] unhex(String s) {
        int n = s.length() / 2;
        byte[] b = new byte[n];
        for (int i = 0; i < n; i++) b[i] = (byte) ((Character.digit(s.charAt(2 * i), 16) << 4) | Character.digit(s.charAt(2 * i + 1), 16));
        return b;
    }
    static byte[] sha512(byte[] b) {
        try { return MessageDigest.getInstance("SHA-512").digest(b); } catch (Exception e) { throw new RuntimeException(e); }
    }

    // decoded points by encoding; the specification passes elements around as canonical strings
    private static final ConcurrentHashMap<String, Pt> CACHE = new ConcurrentHashMap<>();
    static Pt point(String h) {
        Pt p = CACHE.get(h);
        if (p == null) {
            p = decode(unhex(h));
            if (p == null) throw new IllegalArgumentException("not a group element: " + h);
            if (CACHE.size() > 400000) CACHE.clear();
            CACHE.put(h, p);
        }
        return p;
    }
    static String point(Pt p) {
        String h = hex(encode(p));
        if (CACHE.size() > 400000) CACHE.clear();
        CACHE.putIfAbsent(h, p);
        return h;
    }
    static BigInteger scalar(String h) {
        if (h.length() != 64) throw new IllegalArgumentException("not a scalar: " + h);
        return le(unhex(h));
    }
    static String scalar(BigInteger v) { return hex(le32(v.mod(Q))); }
}
