import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import tlc2.util.FP64;

/** An IEEE-754 double as a TLC value (the values of module Num). */
public final class RealValue extends Value {
  public final double val;

  public RealValue(final double val) {
    this.val = val;
  }

  /** Accept a RealValue, a TLA+ integer, or a decimal string. */
  public static double of(final Object v) {
    if (v instanceof RealValue) {
      return ((RealValue) v).val;
    }
    if (v instanceof IntValue) {
      return ((IntValue) v).val;
    }
    if (v instanceof StringValue) {
      final String s = ((StringValue) v).val.toString();
      if (s.equals("inf")) {
        return Double.POSITIVE_INFINITY;
      }
      return Double.parseDouble(s);
    }
    throw new IllegalArgumentException("not a number: " + v);
  }

  @Override
  public byte getKind() {
    return REALVALUE;
  }

  @Override
  public int compareTo(final Object o) {
    return Double.compare(val, of(o));
  }

  @Override
  public boolean equals(final Object o) {
    return o instanceof RealValue && Double.compare(val, ((RealValue) o).val) == 0;
  }

  @Override
  public boolean member(final Value v) {
    throw new UnsupportedOperationException("element of a number");
  }

  @Override
  public boolean isFinite() {
    throw new UnsupportedOperationException("cardinality of a number");
  }

  @Override
  public Value takeExcept(final ValueExcept ex) {
    if (ex.idx < ex.path.length) {
      throw new UnsupportedOperationException("EXCEPT inside a number");
    }
    return ex.value;
  }

  @Override
  public Value takeExcept(final ValueExcept[] exs) {
    Value res = this;
    for (final ValueExcept ex : exs) {
      res = takeExcept(ex);
    }
    return res;
  }

  @Override
  public int size() {
    throw new UnsupportedOperationException("size of a number");
  }

  @Override
  public boolean mutates() {
    return false;
  }

  @Override
  public boolean isNormalized() {
    return true;
  }

  @Override
  public Value normalize() {
    return this;
  }

  @Override
  public boolean isDefined() {
    return true;
  }

  @Override
  public IValue deepCopy() {
    return this;
  }

  @Override
  public long fingerPrint(final long fp) {
    final long bits = Double.doubleToLongBits(val);
    long f = FP64.Extend(fp, REALVALUE);
    f = FP64.Extend(f, (int) (bits >>> 32));
    return FP64.Extend(f, (int) bits);
  }

  @Override
  public IValue permute(final IMVPerm perm) {
    return this;
  }

  @Override
  public StringBuffer toString(final StringBuffer sb, final int offset, final boolean swallow) {
    return sb.append(Double.toString(val));
  }
}
