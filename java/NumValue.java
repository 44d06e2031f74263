import java.math.BigDecimal;
import java.math.MathContext;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.*;
import tlc2.util.FP64;
import util.Assert;

/** A number of the specification: a decimal of 40 digits, or one of the IEEE specials. */
public class NumValue extends Value {
    public static final MathContext MC = new MathContext(40);
    public static final NumValue NAN = new NumValue(null, 0);
    public static final NumValue PINF = new NumValue(null, 1);
    public static final NumValue NINF = new NumValue(null, -1);
    final BigDecimal v;   // null: special
    final int special;    // 0 NaN, 1 +inf, -1 -inf

    private NumValue(BigDecimal v, int special) { this.v = v; this.special = special; }
    public static NumValue of(BigDecimal b) { return new NumValue(b, 0); }
    public static NumValue of(double d) {
        if (Double.isNaN(d)) return NAN;
        if (Double.isInfinite(d)) return d > 0 ? PINF : NINF;
        return new NumValue(new BigDecimal(d, MC), 0);
    }
    public boolean isNaN() { return v == null && special == 0; }
    public double dbl() { return v != null ? v.doubleValue() : special == 0 ? Double.NaN : special * Double.POSITIVE_INFINITY; }

    @Override public byte getKind() { return USERVALUE; }
    @Override public String getKindString() { return "a number"; }
    private int rank() { return v != null ? 0 : special == 0 ? 2 : special; }
    @Override public int compareTo(Object o) {
        if (o instanceof IntValue) o = of(new BigDecimal(((IntValue) o).val));
        if (!(o instanceof NumValue)) { Assert.fail("compare number with " + o); return 0; }
        NumValue n = (NumValue) o;
        if (v != null && n.v != null) return v.compareTo(n.v);
        return Integer.compare(rank(), n.rank());
    }
    @Override public boolean equals(Object o) {
        if (o instanceof IntValue) o = of(new BigDecimal(((IntValue) o).val));
        return o instanceof NumValue && compareTo(o) == 0;
    }
    @Override public boolean member(Value e) { Assert.fail("number is not a set"); return false; }
    @Override public boolean isFinite() { return true; }
    @Override public int size() { Assert.fail("number has no size"); return 0; }
    @Override public Value takeExcept(ValueExcept ex) { Assert.fail("number EXCEPT"); return null; }
    @Override public Value takeExcept(ValueExcept[] ex) { Assert.fail("number EXCEPT"); return null; }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public boolean mutates() { return false; }
    @Override public long fingerPrint(long fp) { return FP64.Extend(fp, text()); }
    @Override public IValue permute(IMVPerm p) { return this; }
    String text() { return v == null ? (special == 0 ? "nan" : special > 0 ? "inf" : "-inf") : v.signum() == 0 ? "0" : v.stripTrailingZeros().toString(); }
    @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
        return sb.append(v == null ? text() : Double.toString(v.doubleValue()));
    }
}
