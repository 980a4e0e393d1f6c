import tlc2.value.impl.*;
import java.io.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.security.MessageDigest;
import java.text.Normalizer;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;

/**
 * Realisation of the operators that module Prims.tla only declares: hash functions, curve points and text
 * conversions.  Written from FIPS 180-4 / SEC 2 / RFC 8018 / ISO 10118-3 / Keccak, independent of the code under test.
 * TLC loads this class because it is named like the TLA+ module.
 */
public class Prims {
    // ------------------------------------------------------------------ values
    static byte[] bytes(Value v) {
        Value t0 = v.toTuple();
        if (!(t0 instanceof TupleValue)) throw new RuntimeException("byte sequence expected, got " + v);
        TupleValue t = (TupleValue) t0;
        byte[] r = new byte[t.elems.length];
        for (int i = 0; i < r.length; i++) {
            int x = ((IntValue) t.elems[i]).val;
            if (x < 0 || x > 255) throw new RuntimeException("not a byte: " + x);
            r[i] = (byte) x;
        }
        return r;
    }
    static Value seq(byte[] x) {
        Value[] e = new Value[x.length];
        for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(x[i] & 255);
        return new TupleValue(e);
    }
    static Value seq(int[] x) {
        Value[] e = new Value[x.length];
        for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(x[i]);
        return new TupleValue(e);
    }
    static String str(Value v) { return ((StringValue) v).val.toString(); }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    // ------------------------------------------------------------------ hashes
    public static Value SHA256(Value d) throws Exception { return seq(MessageDigest.getInstance("SHA-256").digest(bytes(d))); }

    static Mac mac(byte[] key) throws Exception {
        Mac m = Mac.getInstance("HmacSHA512");
        m.init(new SecretKeySpec(key.length == 0 ? new byte[1] : key, "HmacSHA512"));   // HMAC pads with zeros anyway
        return m;
    }
    public static Value HMACSHA512(Value key, Value d) throws Exception { return seq(mac(bytes(key)).doFinal(bytes(d))); }

    static final ConcurrentHashMap<String, byte[]> memo = new ConcurrentHashMap<>();
    static String hx(byte[] b) { StringBuilder s = new StringBuilder(); for (byte x : b) s.append(Character.forDigit((x >> 4) & 15, 16)).append(Character.forDigit(x & 15, 16)); return s.toString(); }

    public static Value PBKDF2(Value pw, Value salt, Value iter, Value len) throws Exception {
        byte[] p = bytes(pw), s = bytes(salt);
        int c = ((IntValue) iter).val, n = ((IntValue) len).val;
        String k = "K" + hx(p) + ":" + hx(s) + ":" + c + ":" + n;
        byte[] r = memo.get(k);
        if (r == null) { r = pbkdf2(p, s, c, n); memo.put(k, r); }
        return seq(r);
    }
    static byte[] pbkdf2(byte[] p, byte[] s, int c, int n) throws Exception {
        Mac m = mac(p);
        byte[] out = new byte[n];
        int off = 0;
        for (int blk = 1; off < n; blk++) {
            m.update(s);
            m.update(new byte[]{(byte) (blk >>> 24), (byte) (blk >>> 16), (byte) (blk >>> 8), (byte) blk});
            byte[] u = m.doFinal(), t = u.clone();
            for (int i = 1; i < c; i++) { u = m.doFinal(u); for (int j = 0; j < t.length; j++) t[j] ^= u[j]; }
            int w = Math.min(64, n - off);
            System.arraycopy(t, 0, out, off, w);
            off += w;
        }
        return out;
    }

    // RIPEMD-160
    static final int[] RL = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8, 3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
    static final int[] RR = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2, 15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
    static final int[] SL = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12, 11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
    static final int[] SR = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11, 9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
    static final int[] KL = {0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E};
    static final int[] KR = {0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0};
    static int rf(int j, int x, int y, int z) {
        switch (j) { case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z; case 3: return (x & z) | (y & ~z); default: return x ^ (y | ~z); }
    }
    static byte[] ripemd160(byte[] d) {
        int n = ((d.length + 8) / 64 + 1) * 64;
        byte[] m = Arrays.copyOf(d, n);
        m[d.length] = (byte) 0x80;
        long bits = 8L * d.length;
        for (int i = 0; i < 8; i++) m[n - 8 + i] = (byte) (bits >>> (8 * i));
        int[] h = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
        for (int o = 0; o < n; o += 64) {
            int[] x = new int[16];
            for (int i = 0; i < 16; i++) x[i] = (m[o + 4*i] & 255) | (m[o + 4*i + 1] & 255) << 8 | (m[o + 4*i + 2] & 255) << 16 | (m[o + 4*i + 3] & 255) << 24;
            int a = h[0], b = h[1], c = h[2], dd = h[3], e = h[4], a2 = a, b2 = b, c2 = c, d2 = dd, e2 = e;
            for (int j = 0; j < 80; j++) {
                int t = Integer.rotateLeft(a + rf(j / 16, b, c, dd) + x[RL[j]] + KL[j / 16], SL[j]) + e;
                a = e; e = dd; dd = Integer.rotateLeft(c, 10); c = b; b = t;
                t = Integer.rotateLeft(a2 + rf(4 - j / 16, b2, c2, d2) + x[RR[j]] + KR[j / 16], SR[j]) + e2;
                a2 = e2; e2 = d2; d2 = Integer.rotateLeft(c2, 10); c2 = b2; b2 = t;
            }
            int t = h[1] + c + d2;
            h[1] = h[2] + dd + e2; h[2] = h[3] + e + a2; h[3] = h[4] + a + b2; h[4] = h[0] + b + c2; h[0] = t;
        }
        byte[] r = new byte[20];
        for (int i = 0; i < 20; i++) r[i] = (byte) (h[i / 4] >>> (8 * (i % 4)));
        return r;
    }
    public static Value RIPEMD160(Value d) { return seq(ripemd160(bytes(d))); }

    // Keccak-256 (original padding 0x01)
    static final long[] RC = {0x1L,0x8082L,0x800000000000808AL,0x8000000080008000L,0x808BL,0x80000001L,0x8000000080008081L,0x8000000000008009L,0x8AL,0x88L,0x80008009L,0x8000000AL,0x8000808BL,0x800000000000008BL,0x8000000000008089L,0x8000000000008003L,0x8000000000008002L,0x8000000000000080L,0x800AL,0x800000008000000AL,0x8000000080008081L,0x8000000000008080L,0x80000001L,0x8000000080008008L};
    static final int[][] ROT = {{0,36,3,41,18},{1,44,10,45,2},{62,6,43,15,61},{28,55,25,21,56},{27,20,39,8,14}};
    static byte[] keccak256(byte[] d) {
        int rate = 136, n = (d.length / rate + 1) * rate;
        byte[] m = Arrays.copyOf(d, n);
        m[d.length] ^= 1; m[n - 1] ^= (byte) 0x80;
        long[][] A = new long[5][5];
        for (int o = 0; o < n; o += rate) {
            for (int i = 0; i < rate / 8; i++) {
                long w = 0;
                for (int j = 7; j >= 0; j--) w = w << 8 | (m[o + 8*i + j] & 255);
                A[i % 5][i / 5] ^= w;
            }
            for (int r = 0; r < 24; r++) {
                long[] C = new long[5];
                for (int x = 0; x < 5; x++) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
                for (int x = 0; x < 5; x++) { long D = C[(x + 4) % 5] ^ Long.rotateLeft(C[(x + 1) % 5], 1); for (int y = 0; y < 5; y++) A[x][y] ^= D; }
                long[][] B = new long[5][5];
                for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) B[y][(2*x + 3*y) % 5] = Long.rotateLeft(A[x][y], ROT[x][y]);
                for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] = B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y]);
                A[0][0] ^= RC[r];
            }
        }
        byte[] out = new byte[32];
        for (int i = 0; i < 32; i++) { int w = i / 8; out[i] = (byte) (A[w % 5][w / 5] >>> (8 * (i % 8))); }
        return out;
    }
    public static Value KECCAK256(Value d) { return seq(keccak256(bytes(d))); }

    // ------------------------------------------------------------------ secp256k1
    static final BigInteger P = new BigInteger("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16);
    static final BigInteger GX = new BigInteger("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16);
    static final BigInteger GY = new BigInteger("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16);
    static final BigInteger THREE = BigInteger.valueOf(3), TWO = BigInteger.TWO, SEVEN = BigInteger.valueOf(7);
    // Jacobian coordinates, null = infinity
    static BigInteger[] jdbl(BigInteger[] p) {
        if (p == null || p[1].signum() == 0) return null;
        BigInteger X = p[0], Y = p[1], Z = p[2];
        BigInteger Y2 = Y.multiply(Y).mod(P), S = X.multiply(Y2).shiftLeft(2).mod(P), M = X.multiply(X).multiply(THREE).mod(P);
        BigInteger X3 = M.multiply(M).subtract(S.shiftLeft(1)).mod(P);
        BigInteger Y3 = M.multiply(S.subtract(X3)).subtract(Y2.multiply(Y2).shiftLeft(3)).mod(P);
        return new BigInteger[]{X3, Y3, Y.multiply(Z).shiftLeft(1).mod(P)};
    }
    static BigInteger[] jadd(BigInteger[] p, BigInteger[] q) {
        if (p == null) return q;
        if (q == null) return p;
        BigInteger z1 = p[2].multiply(p[2]).mod(P), z2 = q[2].multiply(q[2]).mod(P);
        BigInteger u1 = p[0].multiply(z2).mod(P), u2 = q[0].multiply(z1).mod(P);
        BigInteger s1 = p[1].multiply(q[2]).multiply(z2).mod(P), s2 = q[1].multiply(p[2]).multiply(z1).mod(P);
        if (u1.equals(u2)) return s1.equals(s2) ? jdbl(p) : null;
        BigInteger h = u2.subtract(u1).mod(P), r = s2.subtract(s1).mod(P), h2 = h.multiply(h).mod(P), h3 = h2.multiply(h).mod(P), v = u1.multiply(h2).mod(P);
        BigInteger x = r.multiply(r).subtract(h3).subtract(v.shiftLeft(1)).mod(P);
        BigInteger y = r.multiply(v.subtract(x)).subtract(s1.multiply(h3)).mod(P);
        return new BigInteger[]{x, y, p[2].multiply(q[2]).multiply(h).mod(P)};
    }
    static byte[] to32(BigInteger x) {
        byte[] b = x.toByteArray(), r = new byte[32];
        int n = Math.min(32, b.length);
        System.arraycopy(b, b.length - n, r, 32 - n, n);
        return r;
    }
    static byte[] affine(BigInteger[] p) {                       // 64 bytes, or empty for infinity
        if (p == null) return new byte[0];
        BigInteger zi = p[2].modInverse(P), zi2 = zi.multiply(zi).mod(P);
        byte[] r = new byte[64];
        System.arraycopy(to32(p[0].multiply(zi2).mod(P)), 0, r, 0, 32);
        System.arraycopy(to32(p[1].multiply(zi2).mod(P).multiply(zi).mod(P)), 0, r, 32, 32);
        return r;
    }
    static byte[] compress(BigInteger[] p) {
        byte[] a = affine(p);
        if (a.length == 0) return a;
        byte[] r = new byte[33];
        r[0] = (byte) (2 + (a[63] & 1));
        System.arraycopy(a, 0, r, 1, 32);
        return r;
    }
    static BigInteger[] decompress(byte[] c) {                   // null unless a curve point
        if (c.length != 33 || (c[0] != 2 && c[0] != 3)) return null;
        BigInteger x = new BigInteger(1, Arrays.copyOfRange(c, 1, 33));
        if (x.compareTo(P) >= 0) return null;
        BigInteger y2 = x.multiply(x).multiply(x).add(SEVEN).mod(P);
        BigInteger y = y2.modPow(P.add(BigInteger.ONE).shiftRight(2), P);
        if (!y.multiply(y).mod(P).equals(y2)) return null;
        if (y.testBit(0) != (c[0] == 3)) y = P.subtract(y);
        return new BigInteger[]{x, y, BigInteger.ONE};
    }
    /** compressed k*G; the empty sequence for the point at infinity */
    public static Value BaseMul(Value k) {
        byte[] kb = bytes(k);
        String key = "M" + hx(kb);
        byte[] r = memo.get(key);
        if (r == null) {
            BigInteger s = new BigInteger(1, kb);
            BigInteger[] g = {GX, GY, BigInteger.ONE}, acc = null;
            for (int i = s.bitLength() - 1; i >= 0; i--) { acc = jdbl(acc); if (s.testBit(i)) acc = jadd(acc, g); }
            r = compress(acc);
            memo.put(key, r);
        }
        return seq(r);
    }
    /** compressed sum of two compressed points; the empty sequence for infinity */
    public static Value PointAdd(Value a, Value b) {
        byte[] x = bytes(a), y = bytes(b);
        if (x.length == 0) return seq(y);                        // infinity
        if (y.length == 0) return seq(x);
        BigInteger[] p = decompress(x), q = decompress(y);
        return seq(p == null || q == null ? new byte[0] : compress(jadd(p, q)));
    }
    public static Value OnCurve(Value a) { return bool(decompress(bytes(a)) != null); }
    /** 64 bytes x,y of a compressed point */
    public static Value Uncompress(Value a) { return seq(affine(decompress(bytes(a)))); }

    // ------------------------------------------------------------------ texts
    static final ConcurrentHashMap<String, Value> unhex = new ConcurrentHashMap<>();
    public static Value Unhex(Value v) {
        String s = str(v);
        if (s.length() % 2 != 0) throw new RuntimeException("odd hex: " + s);
        byte[] r = new byte[s.length() / 2];
        for (int i = 0; i < r.length; i++) r[i] = (byte) Integer.parseInt(s.substring(2*i, 2*i + 2), 16);
        return seq(r);
    }
    /** n reproducible random bytes determined by a number and a label, as a hex string */
    public static Value RndHex(Value seed, Value label, Value count) throws Exception {
        int n = ((IntValue) count).val;
        byte[] out = new byte[n];
        for (int i = 0; i * 32 < n; i++) {
            byte[] h = MessageDigest.getInstance("SHA-256").digest((seed + "|" + str(label) + "|" + i).getBytes(StandardCharsets.UTF_8));
            System.arraycopy(h, 0, out, 32 * i, Math.min(32, n - 32 * i));
        }
        return new StringValue(hx(out));
    }
    public static Value Hex(Value v) { return new StringValue(hx(bytes(v))); }
    public static Value Utf8(Value v) { return seq(str(v).getBytes(StandardCharsets.UTF_8)); }
    /** code points of UTF-8 bytes; a byte that is not part of valid UTF-8 becomes 1114112 + byte */
    public static Value CodePoints(Value v) {
        byte[] b = bytes(v);
        int[] r = new int[b.length];
        int n = 0;
        for (int i = 0; i < b.length; ) {
            int c = b[i] & 255, len = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
            int cp = len == 1 ? c : len == 2 ? c & 31 : len == 3 ? c & 15 : c & 7;
            boolean ok = len > 0 && i + len <= b.length;
            for (int j = 1; ok && j < len; j++) { int x = b[i + j] & 255; if ((x & 0xc0) != 0x80) ok = false; cp = cp << 6 | (x & 63); }
            if (ok && (len == 3 && (cp < 0x800 || cp >= 0xd800 && cp < 0xe000) || len == 4 && (cp < 0x10000 || cp > 0x10ffff))) ok = false;
            if (ok) { r[n++] = cp; i += len; } else { r[n++] = 1114112 + c; i++; }
        }
        return seq(Arrays.copyOf(r, n));
    }
    /** NFKD of UTF-8 bytes, as UTF-8 bytes */
    public static Value NFKD(Value v) {
        return seq(Normalizer.normalize(new String(bytes(v), StandardCharsets.UTF_8), Normalizer.Form.NFKD).getBytes(StandardCharsets.UTF_8));
    }
    public static Value Crc(Value v) { java.util.zip.CRC32 c = new java.util.zip.CRC32(); c.update(bytes(v)); return seq(new byte[]{(byte) (c.getValue() >>> 24), (byte) (c.getValue() >>> 16), (byte) (c.getValue() >>> 8), (byte) c.getValue()}); }

    /** the function from the elements of a sequence of distinct elements to their positions, counted from 0 */
    public static Value Positions(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        Value[] r = new Value[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = IntValue.gen(i);
        Value f = new FcnRcdValue(t.elems.clone(), r, false);
        f.normalize();
        return f;
    }

    // ------------------------------------------------------------------ output
    static final Map<String, Writer> outs = new HashMap<>();
    /** appends a line to a file (TRUE); used by generator modules to hand behaviours to the driver */
    public static synchronized Value Emit(Value file, Value line) throws Exception {
        Writer w = outs.get(str(file));
        if (w == null) { w = new OutputStreamWriter(new FileOutputStream(str(file), false), StandardCharsets.UTF_8); outs.put(str(file), w); }
        w.write(str(line)); w.write("\n"); w.flush();
        return BoolValue.ValTrue;
    }
}
