package tlc2.module;
import java.math.BigInteger;
import tlc2.value.impl.*;
// Evaluates the B* operators of spec/Big.tla; the law module BigLaws compares every one with its TLA+ definition.
public class Big {
    static final BigInteger BASE = BigInteger.valueOf(10000), TWO = BigInteger.valueOf(2);
    static BigInteger in(Value v) {
        Value[] t = ((TupleValue) v.toTuple()).elems;
        Value[] l = ((TupleValue) t[1].toTuple()).elems;
        int sg = ((IntValue) t[0]).val;
        if (sg == 0) return BigInteger.ZERO;
        BigInteger r = BigInteger.ZERO;
        for (int i = l.length; i > 0; ) {
            long w = 0, m = 1;
            for (int k = 0; k < 4 && i > 0; k++) { w = w * 10000 + ((IntValue) l[--i]).val; m *= 10000; }
            r = r.signum() == 0 ? BigInteger.valueOf(w) : r.multiply(BigInteger.valueOf(m)).add(BigInteger.valueOf(w));
        }
        return sg < 0 ? r.negate() : r;
    }
    static Value out(BigInteger a) {
        BigInteger m = a.abs();
        java.util.ArrayList<Value> l = new java.util.ArrayList<>();
        BigInteger B16 = BigInteger.valueOf(10000000000000000L);
        while (m.signum() != 0) {
            BigInteger[] qr = m.divideAndRemainder(B16);
            long w = qr[1].longValue(); m = qr[0];
            for (int k = 0; k < 4 && (w != 0 || m.signum() != 0); k++) { l.add(IntValue.gen((int) (w % 10000))); w /= 10000; }
        }
        return new TupleValue(new Value[]{IntValue.gen(a.signum()), new TupleValue(l.toArray(new Value[0]))});
    }
    static int i(Value v) { return ((IntValue) v).val; }
    static BigInteger p2(Value n) { return BigInteger.ONE.shiftLeft(i(n)); }
    static BigInteger wrap(Value a, Value n) { return in(a).mod(p2(n)); }
    public static Value B(Value n) { return out(BigInteger.valueOf(i(n))); }
    public static Value BNeg(Value a) { return out(in(a).negate()); }
    public static Value BAdd(Value a, Value b) { return out(in(a).add(in(b))); }
    public static Value BSub(Value a, Value b) { return out(in(a).subtract(in(b))); }
    public static Value BMul(Value a, Value b) { return out(in(a).multiply(in(b))); }
    public static Value BCmp(Value a, Value b) { return IntValue.gen(in(a).compareTo(in(b))); }
    public static Value BQuo(Value a, Value b) { return out(in(a).divide(in(b))); }
    public static Value BRem(Value a, Value b) { return out(in(a).remainder(in(b))); }
    public static Value BMod(Value a, Value b) { return out(in(a).mod(in(b))); }
    public static Value BDiv(Value a, Value b) { BigInteger x = in(a), y = in(b); return out(x.subtract(x.mod(y)).divide(y)); }
    public static Value BGcd(Value a, Value b) { return out(in(a).gcd(in(b))); }
    public static Value BPow(Value a, Value n) { return out(in(a).pow(i(n))); }
    public static Value BPowMod(Value a, Value n, Value m) { return out(in(a).modPow(in(n), in(m))); }
    public static Value BToInt(Value a) { return IntValue.gen(in(a).intValueExact()); }
    public static Value BBits(Value a) { BigInteger x = in(a); Value[] r = new Value[x.bitLength()]; for (int k = 0; k < r.length; k++) r[k] = IntValue.gen(x.testBit(k) ? 1 : 0); return new TupleValue(r); }
    public static Value BVal(Value b) { Value[] l = ((TupleValue) b.toTuple()).elems; BigInteger r = BigInteger.ZERO; for (int k = l.length; k-- > 0; ) r = r.shiftLeft(1).add(BigInteger.valueOf(i(l[k]))); return out(r); }
    public static Value BAnd(Value a, Value b) { return out(in(a).and(in(b))); }
    public static Value BOr(Value a, Value b) { return out(in(a).or(in(b))); }
    public static Value BXor(Value a, Value b) { return out(in(a).xor(in(b))); }
    public static Value BPow2(Value n) { return out(p2(n)); }
    public static Value BShl(Value a, Value n) { return out(in(a).shiftLeft(i(n))); }
    public static Value BShr(Value a, Value n) { return out(in(a).shiftRight(i(n))); }
    public static Value BWrap(Value a, Value n) { return out(wrap(a, n)); }
    public static Value BWrapS(Value a, Value n) { BigInteger r = wrap(a, n); return out(r.testBit(i(n) - 1) ? r.subtract(p2(n)) : r); }
    public static Value BRoot(Value a, Value k) {
        BigInteger x = in(a), lo = BigInteger.ZERO, hi = BigInteger.ONE.shiftLeft(x.bitLength() / i(k) + 1);
        while (hi.subtract(lo).compareTo(BigInteger.ONE) > 0) { BigInteger m = lo.add(hi).shiftRight(1); if (m.pow(i(k)).compareTo(x) <= 0) lo = m; else hi = m; }
        return out(lo);
    }
    static BigInteger[] vec(Value v) { Value[] e = ((TupleValue) v.toTuple()).elems; BigInteger[] r = new BigInteger[e.length]; for (int k = 0; k < r.length; k++) r[k] = in(e[k]); return r; }
    static Value outv(BigInteger[] a) { Value[] r = new Value[a.length]; for (int k = 0; k < r.length; k++) r[k] = out(a[k]); return new TupleValue(r); }
    public static Value BVMod(Value v, Value m) { BigInteger y = in(m); BigInteger[] a = vec(v); for (int k = 0; k < a.length; k++) a[k] = a[k].mod(y); return outv(a); }
    static BigInteger pack(BigInteger[] a, int bytes) { byte[] r = new byte[bytes * a.length + 1]; for (int k = 0; k < a.length; k++) { byte[] t = a[k].toByteArray(); int end = r.length - k * bytes; for (int j = 0; j < t.length && (j < t.length); j++) if (t.length - 1 - j < bytes) r[end - 1 - j] = t[t.length - 1 - j]; } return new BigInteger(r); }
    public static Value BConv(Value v, Value w) {
        BigInteger[] a = vec(v), b = vec(w);
        if (a.length == 0 || b.length == 0) return new TupleValue(new Value[0]);
        BigInteger[] r = new BigInteger[a.length + b.length - 1];
        int bits = 0, bb = 0; boolean neg = false;
        for (BigInteger x : a) { bits = Math.max(bits, x.bitLength()); neg |= x.signum() < 0; } for (BigInteger x : b) { bb = Math.max(bb, x.bitLength()); neg |= x.signum() < 0; }
        if (neg) {
            java.util.Arrays.fill(r, BigInteger.ZERO);
            for (int x = 0; x < a.length; x++) if (a[x].signum() != 0) for (int y = 0; y < b.length; y++) r[x + y] = r[x + y].add(a[x].multiply(b[y]));
        } else {
            // one product of the numbers whose digits are the entries
            int bytes = (bits + bb + 32 - Integer.numberOfLeadingZeros(Math.min(a.length, b.length))) / 8 + 1;
            byte[] p = pack(a, bytes).multiply(pack(b, bytes)).toByteArray();
            for (int k = 0; k < r.length; k++) { int hi = p.length - k * bytes, lo = Math.max(0, hi - bytes); r[k] = hi <= 0 ? BigInteger.ZERO : new BigInteger(1, java.util.Arrays.copyOfRange(p, lo, hi)); }
        }
        return outv(r);
    }
}
