import java.math.BigInteger;
import tlc2.value.impl.*;

/** Arbitrary precision implementation of spec/Num.tla: a Num is its decimal string. */
public class Num {
    private static final BigInteger TWO = BigInteger.valueOf(2);

    static BigInteger big(final Value v) {
        if (v instanceof StringValue) return new BigInteger(((StringValue) v).val.toString());
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        throw new RuntimeException("Num: not a number: " + v);
    }
    // -1: does not fit the fast path
    private static boolean small(final String s) { return s.length() <= 18; }
    private static String str(final Value v) {
        if (v instanceof StringValue) return ((StringValue) v).val.toString();
        if (v instanceof IntValue) return Integer.toString(((IntValue) v).val);
        throw new RuntimeException("Num: not a number: " + v);
    }
    private static Value val(final BigInteger b) { return new StringValue(b.toString()); }
    private static Value val(final long b) { return new StringValue(Long.toString(b)); }

    public static Value N(final Value i) { return val(big(i)); }
    public static Value NAdd(final Value a, final Value b) {
        final String x = str(a), y = str(b);
        if (small(x) && small(y)) return val(Long.parseLong(x) + Long.parseLong(y));
        return val(new BigInteger(x).add(new BigInteger(y)));
    }
    public static Value NSub(final Value a, final Value b) {
        final String x = str(a), y = str(b);
        if (small(x) && small(y)) return val(Long.parseLong(x) - Long.parseLong(y));
        return val(new BigInteger(x).subtract(new BigInteger(y)));
    }
    public static Value NMul(final Value a, final Value b) { return val(big(a).multiply(big(b))); }
    public static Value NQuo(final Value a, final Value b) { return val(big(a).divide(big(b))); }
    public static Value NLt(final Value a, final Value b) { return cmp(a, b) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value NLe(final Value a, final Value b) { return cmp(a, b) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static int cmp(final Value a, final Value b) {
        final String x = str(a), y = str(b);
        if (small(x) && small(y)) return Long.compare(Long.parseLong(x), Long.parseLong(y));
        return new BigInteger(x).compareTo(new BigInteger(y));
    }
    public static Value NChop(final Value a, final Value p) {
        final BigInteger A = big(a), P = big(p);
        final BigInteger[] qr = A.abs().divideAndRemainder(P);
        BigInteger q = qr[0];
        final int c = qr[1].multiply(TWO).compareTo(P);
        if (c > 0 || (c == 0 && q.testBit(0))) q = q.add(BigInteger.ONE);
        return val(A.signum() < 0 ? q.negate() : q);
    }
    public static Value NToInt(final Value a) { return IntValue.gen(big(a).intValueExact()); }
}
