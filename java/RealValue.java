import tlc2.value.impl.*;
import tlc2.value.*;
import util.Assert;

/** An IEEE-754 double as a TLC value: the carrier of the module Reals64. */
public final class RealValue extends Value {
  public final double v;
  public RealValue(double v) { this.v = (v == 0.0) ? 0.0 : v; }
  @Override public byte getKind() { return USERVALUE; }
  @Override public int compareTo(Object o) {
    if (o instanceof RealValue) return Double.compare(v, ((RealValue) o).v);
    if (o instanceof IntValue) return Double.compare(v, ((IntValue) o).val);
    if (o instanceof ModelValue) return ((ModelValue) o).modelValueCompareTo(this);
    return 1;
  }
  @Override public boolean equals(Object o) {
    if (o instanceof RealValue) return Double.compare(v, ((RealValue) o).v) == 0;
    if (o instanceof IntValue) return v == ((IntValue) o).val;
    return false;
  }
  @Override public boolean member(Value e) { Assert.fail("member of a real"); return false; }
  @Override public boolean isFinite() { return true; }
  @Override public Value takeExcept(ValueExcept ex) { Assert.fail("EXCEPT on a real"); return null; }
  @Override public Value takeExcept(ValueExcept[] exs) { Assert.fail("EXCEPT on a real"); return null; }
  @Override public int size() { return 1; }
  @Override public boolean mutates() { return false; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public void deepNormalize() { }
  @Override public boolean isAtom() { return true; }
  @Override public void write(IValueOutputStream s) { throw new RuntimeException("reals are not stored in states on disk"); }
  @Override public long fingerPrint(long fp) {
    long b = Double.doubleToLongBits(v);
    fp = tlc2.util.FP64.Extend(fp, (byte) 77);
    fp = tlc2.util.FP64.Extend(fp, (int) (b >>> 32));
    return tlc2.util.FP64.Extend(fp, (int) b);
  }
  @Override public IValue permute(IMVPerm perm) { return this; }
  @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
    return sb.append("\"").append(Double.toString(v)).append("\"");
  }
}
