import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Evaluation of the operators of module Num (IEEE-754 doubles, StrictMath). */
public final class NumImpl {
  private NumImpl() {}

  private static Value r(final double d) {
    return new RealValue(d);
  }

  private static double d(final Value v) {
    return RealValue.of(v);
  }

  private static Value b(final boolean x) {
    return x ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "R", module = "Num", warn = false)
  public static Value real(final Value a) {
    return a instanceof RealValue ? a : r(d(a));
  }

  @TLAPlusOperator(identifier = "NAdd", module = "Num", warn = false)
  public static Value add(final Value a, final Value b) {
    return r(d(a) + d(b));
  }

  @TLAPlusOperator(identifier = "NSub", module = "Num", warn = false)
  public static Value sub(final Value a, final Value b) {
    return r(d(a) - d(b));
  }

  @TLAPlusOperator(identifier = "NMul", module = "Num", warn = false)
  public static Value mul(final Value a, final Value b) {
    return r(d(a) * d(b));
  }

  @TLAPlusOperator(identifier = "NDiv", module = "Num", warn = false)
  public static Value div(final Value a, final Value b) {
    return r(d(a) / d(b));
  }

  @TLAPlusOperator(identifier = "NNeg", module = "Num", warn = false)
  public static Value neg(final Value a) {
    return r(-d(a));
  }

  @TLAPlusOperator(identifier = "NAbs", module = "Num", warn = false)
  public static Value abs(final Value a) {
    return r(Math.abs(d(a)));
  }

  @TLAPlusOperator(identifier = "NSqrt", module = "Num", warn = false)
  public static Value sqrt(final Value a) {
    return r(StrictMath.sqrt(d(a)));
  }

  @TLAPlusOperator(identifier = "NSin", module = "Num", warn = false)
  public static Value sin(final Value a) {
    return r(StrictMath.sin(d(a)));
  }

  @TLAPlusOperator(identifier = "NCos", module = "Num", warn = false)
  public static Value cos(final Value a) {
    return r(StrictMath.cos(d(a)));
  }

  @TLAPlusOperator(identifier = "NExp", module = "Num", warn = false)
  public static Value exp(final Value a) {
    return r(StrictMath.exp(d(a)));
  }

  @TLAPlusOperator(identifier = "NExpM1", module = "Num", warn = false)
  public static Value expm1(final Value a) {
    return r(StrictMath.expm1(d(a)));
  }

  @TLAPlusOperator(identifier = "NLn", module = "Num", warn = false)
  public static Value ln(final Value a) {
    return r(StrictMath.log(d(a)));
  }

  @TLAPlusOperator(identifier = "NPow", module = "Num", warn = false)
  public static Value pow(final Value a, final Value b) {
    return r(StrictMath.pow(d(a), d(b)));
  }

  @TLAPlusOperator(identifier = "NMax", module = "Num", warn = false)
  public static Value max(final Value a, final Value b) {
    return r(Math.max(d(a), d(b)));
  }

  @TLAPlusOperator(identifier = "NMin", module = "Num", warn = false)
  public static Value min(final Value a, final Value b) {
    return r(Math.min(d(a), d(b)));
  }

  @TLAPlusOperator(identifier = "NLt", module = "Num", warn = false)
  public static Value lt(final Value a, final Value b) {
    return b(d(a) < d(b));
  }

  @TLAPlusOperator(identifier = "NLe", module = "Num", warn = false)
  public static Value le(final Value a, final Value b) {
    return b(d(a) <= d(b));
  }

  @TLAPlusOperator(identifier = "NEq", module = "Num", warn = false)
  public static Value eq(final Value a, final Value b) {
    return b(d(a) == d(b));
  }

  @TLAPlusOperator(identifier = "NFinite", module = "Num", warn = false)
  public static Value finite(final Value a) {
    final double x = d(a);
    return b(!Double.isNaN(x) && !Double.isInfinite(x));
  }

  @TLAPlusOperator(identifier = "NIsNaN", module = "Num", warn = false)
  public static Value isNaN(final Value a) {
    return b(Double.isNaN(d(a)));
  }

  @TLAPlusOperator(identifier = "NStr", module = "Num", warn = false)
  public static Value str(final Value a) {
    return new StringValue(Double.toString(d(a)));
  }

  /** The integer nearest to a. */
  @TLAPlusOperator(identifier = "NRound", module = "Num", warn = false)
  public static Value round(final Value a) {
    return IntValue.gen((int) Math.round(d(a)));
  }

  @TLAPlusOperator(identifier = "NSum", module = "Num", warn = false)
  public static Value sum(final Value s) {
    final TupleValue t = (TupleValue) s.toTuple();
    double acc = 0;
    for (final Value v : t.elems) {
      acc += d(v);
    }
    return r(acc);
  }

  /** A uniform number in [0, 1) determined by its three arguments (splitmix64). */
  @TLAPlusOperator(identifier = "NUniform", module = "Num", warn = false)
  public static Value uniform(final Value seed, final Value index, final Value tag) {
    long z = ((IntValue) seed).val * 0x9E3779B97F4A7C15L;
    z = mix(z + ((IntValue) index).val * 0xD1B54A32D192ED03L);
    z = mix(z + ((StringValue) tag).val.toString().hashCode() * 0x8CB92BA72F3D8DD7L);
    return r((z >>> 11) * 0x1.0p-53);
  }

  private static long mix(long z) {
    z += 0x9E3779B97F4A7C15L;
    z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
    z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
    return z ^ (z >>> 31);
  }
}
