import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC module override of Rat.tla (see there for what each operator means). */
public final class Rat {
    private static final ConcurrentHashMap<String, RatValue> cache = new ConcurrentHashMap<>();

    static RatValue parse(String s) {
        RatValue r = cache.get(s);
        if (r != null) return r;
        int i = s.indexOf('/');
        if (i >= 0) r = RatValue.of(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        else {
            BigDecimal b = new BigDecimal(s.trim());
            r = b.scale() <= 0 ? RatValue.of(b.toBigIntegerExact(), BigInteger.ONE)
                               : RatValue.of(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
        }
        if (cache.size() < 200000) cache.put(s, r);
        return r;
    }
    static RatValue r(Value v) {
        if (v instanceof RatValue) return (RatValue) v;
        if (v instanceof IntValue) return RatValue.of(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        throw new RuntimeException("Rat: not a number: " + v);
    }
    private static TupleValue seq(Value v) {
        Value t = v.toTuple();
        if (!(t instanceof TupleValue)) throw new RuntimeException("Rat: not a sequence: " + v);
        return (TupleValue) t;
    }
    private static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value R(Value v) { return r(v); }
    public static Value RAdd(Value a, Value b) { return r(a).add(r(b)); }
    public static Value RSub(Value a, Value b) { return r(a).add(r(b).neg()); }
    public static Value RNeg(Value a) { return r(a).neg(); }
    public static Value RMul(Value a, Value b) { return r(a).mul(r(b)); }
    public static Value RDiv(Value a, Value b) { return r(a).div(r(b)); }
    public static Value RLeq(Value a, Value b) { return bool(r(a).cmp(r(b)) <= 0); }
    public static Value RLt(Value a, Value b) { return bool(r(a).cmp(r(b)) < 0); }
    public static Value REq(Value a, Value b) { return bool(r(a).cmp(r(b)) == 0); }
    public static Value RAbs(Value a) { RatValue x = r(a); return x.n.signum() < 0 ? x.neg() : x; }
    public static Value RMax(Value a, Value b) { RatValue x = r(a), y = r(b); return x.cmp(y) >= 0 ? x : y; }
    public static Value RMin(Value a, Value b) { RatValue x = r(a), y = r(b); return x.cmp(y) <= 0 ? x : y; }
    public static Value RStr(Value a) { return new StringValue(r(a).str()); }
    public static Value RSum(Value s) {
        RatValue acc = RatValue.ZERO;
        for (Value e : seq(s).elems) acc = acc.add(r(e));
        return acc;
    }
    public static Value RDot(Value s, Value t) {
        Value[] x = seq(s).elems, y = seq(t).elems;
        if (x.length != y.length) throw new RuntimeException("RDot: lengths differ");
        RatValue acc = RatValue.ZERO;
        for (int i = 0; i < x.length; i++) acc = acc.add(r(x[i]).mul(r(y[i])));
        return acc;
    }
    public static Value RVec(Value s) {
        Value[] x = seq(s).elems; Value[] y = new Value[x.length];
        for (int i = 0; i < x.length; i++) y[i] = r(x[i]);
        return new TupleValue(y);
    }
    public static Value RVAdd(Value s, Value t) {
        Value[] x = seq(s).elems, y = seq(t).elems;
        if (x.length != y.length) throw new RuntimeException("RVAdd: lengths differ");
        Value[] z = new Value[x.length];
        for (int i = 0; i < x.length; i++) z[i] = r(x[i]).add(r(y[i]));
        return new TupleValue(z);
    }
    public static Value RVScale(Value c, Value s) {
        Value[] x = seq(s).elems; RatValue k = r(c); Value[] z = new Value[x.length];
        for (int i = 0; i < x.length; i++) z[i] = k.mul(r(x[i]));
        return new TupleValue(z);
    }
    /** Largest componentwise distance. */
    public static Value RVDist(Value s, Value t) {
        Value[] x = seq(s).elems, y = seq(t).elems;
        if (x.length != y.length) throw new RuntimeException("RVDist: lengths differ");
        RatValue m = RatValue.ZERO;
        for (int i = 0; i < x.length; i++) {
            RatValue e = r(x[i]).add(r(y[i]).neg());
            if (e.n.signum() < 0) e = e.neg();
            if (e.cmp(m) > 0) m = e;
        }
        return m;
    }
    /** max over the vectors v of a sequence of v . b */
    public static Value RMaxDot(Value vs, Value b) {
        Value[] v = seq(vs).elems, y = seq(b).elems;
        RatValue[] yb = new RatValue[y.length];
        for (int i = 0; i < y.length; i++) yb[i] = r(y[i]);
        RatValue best = null;
        for (Value e : v) {
            Value[] x = seq(e).elems;
            if (x.length != y.length) throw new RuntimeException("RMaxDot: lengths differ");
            RatValue acc = RatValue.ZERO;
            for (int i = 0; i < x.length; i++) acc = acc.add(r(x[i]).mul(yb[i]));
            if (best == null || acc.cmp(best) > 0) best = acc;
        }
        if (best == null) throw new RuntimeException("RMaxDot: no vector");
        return best;
    }
}
