import java.math.BigInteger;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/** An exact rational number as a TLC value (always in lowest terms, den &gt; 0). */
public final class RatValue extends Value {
    final BigInteger n, d;
    static final RatValue ZERO = new RatValue(BigInteger.ZERO, BigInteger.ONE);

    private RatValue(BigInteger n, BigInteger d) { this.n = n; this.d = d; }

    static RatValue of(BigInteger n, BigInteger d) {
        if (d.signum() == 0) throw new ArithmeticException("Rat: zero denominator");
        if (n.signum() == 0) return ZERO;
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(BigInteger.ONE)) {
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        }
        return new RatValue(n, d);
    }
    RatValue add(RatValue o) {
        if (n.signum() == 0) return o;
        if (o.n.signum() == 0) return this;
        if (d.equals(o.d)) return of(n.add(o.n), d);
        return of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
    }
    RatValue neg() { return new RatValue(n.negate(), d); }
    RatValue mul(RatValue o) {
        if (n.signum() == 0 || o.n.signum() == 0) return ZERO;
        return of(n.multiply(o.n), d.multiply(o.d));
    }
    RatValue div(RatValue o) { return of(n.multiply(o.d), d.multiply(o.n)); }
    int cmp(RatValue o) {
        int s = n.signum(), t = o.n.signum();
        if (s != t) return s < t ? -1 : 1;
        return n.multiply(o.d).compareTo(o.n.multiply(d));
    }
    @Override public byte getKind() { return USERVALUE; }
    @Override public int compareTo(Object o) {
        if (o instanceof RatValue) return cmp((RatValue) o);
        throw new RuntimeException("Rat: compared with " + o);
    }
    @Override public boolean equals(Object o) {
        return o instanceof RatValue && n.equals(((RatValue) o).n) && d.equals(((RatValue) o).d);
    }
    @Override public boolean member(Value v) { throw new RuntimeException("Rat: not a set"); }
    @Override public boolean isFinite() { throw new RuntimeException("Rat: not a set"); }
    @Override public Value takeExcept(ValueExcept e) { throw new RuntimeException("Rat: EXCEPT"); }
    @Override public Value takeExcept(ValueExcept[] e) { throw new RuntimeException("Rat: EXCEPT"); }
    @Override public int size() { throw new RuntimeException("Rat: size"); }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public boolean mutates() { return false; }
    @Override public long fingerPrint(long fp) {
        fp = FP64.Extend(fp, USERVALUE);
        return FP64.Extend(fp, str());
    }
    @Override public IValue permute(IMVPerm p) { return this; }
    String str() { return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }
    @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
        return sb.append('"').append(str()).append('"');
    }
}
