import java.math.BigInteger;
import java.util.LinkedHashMap;
import java.util.Map;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** Fast evaluation of the operators of BigNum.tla; MC_BigNum checks it against the definitions. */
public class BcalcOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { BcalcOverrides.class };
    }

    private static String s(Value v) {
        return ((StringValue) v).val.toString();
    }

    /** Long numbers that were read or written lately: reading them takes time quadratic in their length. */
    private static final int LONG = 400;
    private static final ThreadLocal<LinkedHashMap<String, BigInteger>> known = ThreadLocal.withInitial(() ->
        new LinkedHashMap<String, BigInteger>(64, .75f, true) {
            @Override
            protected boolean removeEldestEntry(Map.Entry<String, BigInteger> e) { return size() > 40; }
        });

    private static BigInteger b(Value v) {
        String t = s(v);
        if (t.length() < LONG) return new BigInteger(t);
        BigInteger x = known.get().get(t);
        if (x == null) {
            x = new BigInteger(t);
            known.get().put(t, x);
        }
        return x;
    }

    private static int n(Value v) {
        return ((IntValue) v).val;
    }

    private static Value r(BigInteger x) {
        String t = x.toString();
        if (t.length() >= LONG) known.get().put(t, x);
        return new StringValue(t);
    }

    @TLAPlusOperator(identifier = "BNeg", module = "BigNum", warn = false)
    public static Value neg(Value x) { return r(b(x).negate()); }

    @TLAPlusOperator(identifier = "BAbs", module = "BigNum", warn = false)
    public static Value abs(Value x) { return r(b(x).abs()); }

    @TLAPlusOperator(identifier = "BSign", module = "BigNum", warn = false)
    public static Value sign(Value x) { return IntValue.gen(b(x).signum()); }

    @TLAPlusOperator(identifier = "BAdd", module = "BigNum", warn = false)
    public static Value add(Value x, Value y) { return r(b(x).add(b(y))); }

    @TLAPlusOperator(identifier = "BSub", module = "BigNum", warn = false)
    public static Value sub(Value x, Value y) { return r(b(x).subtract(b(y))); }

    @TLAPlusOperator(identifier = "BMul", module = "BigNum", warn = false)
    public static Value mul(Value x, Value y) { return r(b(x).multiply(b(y))); }

    @TLAPlusOperator(identifier = "BQuot", module = "BigNum", warn = false)
    public static Value quot(Value x, Value y) { return r(b(x).divide(b(y))); }

    @TLAPlusOperator(identifier = "BRem", module = "BigNum", warn = false)
    public static Value rem(Value x, Value y) { return r(b(x).remainder(b(y))); }

    @TLAPlusOperator(identifier = "BCmp", module = "BigNum", warn = false)
    public static Value cmp(Value x, Value y) { return IntValue.gen(b(x).compareTo(b(y))); }

    @TLAPlusOperator(identifier = "BGcd", module = "BigNum", warn = false)
    public static Value gcd(Value x, Value y) { return r(b(x).gcd(b(y))); }

    @TLAPlusOperator(identifier = "BPow", module = "BigNum", warn = false)
    public static Value pow(Value x, Value e) { return r(b(x).pow(n(e))); }

    @TLAPlusOperator(identifier = "BIRoot", module = "BigNum", warn = false)
    public static Value iroot(Value x, Value e) {
        BigInteger a = b(x);
        int d = n(e);
        if (d == 2) return r(a.sqrt());
        BigInteger lo = BigInteger.ZERO, hi = BigInteger.ONE.shiftLeft(a.bitLength() / d + 1);
        while (true) {
            BigInteger m = lo.add(hi).shiftRight(1);
            if (m.equals(lo)) return r(lo);
            if (m.pow(d).compareTo(a) <= 0) lo = m; else hi = m;
        }
    }

    @TLAPlusOperator(identifier = "BDigits", module = "BigNum", warn = false)
    public static Value digits(Value x, Value radix) {
        return new StringValue(b(x).abs().toString(n(radix)));
    }

    @TLAPlusOperator(identifier = "BParse", module = "BigNum", warn = false)
    public static Value parse(Value x, Value radix) {
        String t = s(x);
        return r(t.isEmpty() ? BigInteger.ZERO : new BigInteger(t, n(radix)));
    }

    @TLAPlusOperator(identifier = "BSmall", module = "BigNum", warn = false)
    public static Value small(Value x) {
        String t = s(x);
        return IntValue.gen(t.startsWith("-") || t.length() > 9 ? -1 : Integer.parseInt(t));
    }
}
