package tlc2.module;

import java.math.BigInteger;

import tlc2.output.EC;
import tlc2.tool.EvalException;
import tlc2.tool.impl.TLARegistry;
import tlc2.value.IBoolValue;
import tlc2.value.ValueConstants;
import tlc2.value.Values;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.IntervalValue;
import tlc2.value.impl.ModelValue;
import tlc2.value.impl.UserObj;
import tlc2.value.impl.UserValue;
import tlc2.value.impl.Value;
import util.Assert;

/** TLC's Naturals module with unbounded integers (see tlc2.value.impl.IntValue beside this file). */
public class Naturals extends UserObj implements ValueConstants {
  public static final long serialVersionUID = 20160822L;
  static {
    TLARegistry.put("Plus", "+");
    TLARegistry.put("Minus", "-");
    TLARegistry.put("Times", "*");
    TLARegistry.put("LT", "<");
    TLARegistry.put("LE", "\\leq");
    TLARegistry.put("GT", ">");
    TLARegistry.put("GEQ", "\\geq");
    TLARegistry.put("DotDot", "..");
    TLARegistry.put("Divide", "\\div");
    TLARegistry.put("Mod", "%");
    TLARegistry.put("Expt", "^");
  }
  private static final Value SetNat = new UserValue(new Naturals());
  public static Value Nat() { return SetNat; }

  private static IntValue in(Value v, String op, String which) {
    if (v instanceof IntValue) return (IntValue) v;
    throw new EvalException(EC.TLC_MODULE_ARGUMENT_ERROR,
        new String[] {which, op, "integer", Values.ppr(v.toString())});
  }

  public static IntValue Plus(IntValue x, IntValue y) {
    if (x.big == null && y.big == null) return IntValue.genLong((long) x.val + y.val);
    return IntValue.gen(x.toBig().add(y.toBig()));
  }
  public static IntValue Minus(IntValue x, IntValue y) {
    if (x.big == null && y.big == null) return IntValue.genLong((long) x.val - y.val);
    return IntValue.gen(x.toBig().subtract(y.toBig()));
  }
  public static IntValue Times(IntValue x, IntValue y) {
    if (x.big == null && y.big == null) return IntValue.genLong((long) x.val * y.val);
    return IntValue.gen(x.toBig().multiply(y.toBig()));
  }
  public static IBoolValue LT(Value x, Value y) {
    return in(x, "<", "first").compareTo(in(y, "<", "second")) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static IBoolValue LE(Value x, Value y) {
    return in(x, "<=", "first").compareTo(in(y, "<=", "second")) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static IBoolValue GT(Value x, Value y) {
    return in(x, ">", "first").compareTo(in(y, ">", "second")) > 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static IBoolValue GEQ(Value x, Value y) {
    return in(x, ">=", "first").compareTo(in(y, ">=", "second")) >= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static IntervalValue DotDot(IntValue x, IntValue y) {
    if (x.big != null || y.big != null)
      throw new EvalException(EC.TLC_MODULE_ARGUMENT_ERROR,
          new String[] {"bounds", "..", "small integer", Values.ppr(x.toString())});
    return new IntervalValue(x.val, y.val);
  }
  /** Floored quotient: x = y * (x div y) + (x % y), 0 <= x % y < y. */
  public static IntValue Divide(IntValue x, IntValue y) {
    if (x.big == null && y.big == null) {
      if (y.val == 0) throw new EvalException(EC.TLC_MODULE_DIVISION_BY_ZERO);
      return IntValue.genLong(Math.floorDiv((long) x.val, (long) y.val));
    }
    BigInteger a = x.toBig(), b = y.toBig();
    if (b.signum() == 0) throw new EvalException(EC.TLC_MODULE_DIVISION_BY_ZERO);
    BigInteger[] qr = a.divideAndRemainder(b);
    BigInteger q = qr[0];
    if (qr[1].signum() != 0 && (qr[1].signum() != b.signum())) q = q.subtract(BigInteger.ONE);
    return IntValue.gen(q);
  }
  public static IntValue Mod(IntValue x, IntValue y) {
    if (y.big == null && y.val <= 0 || y.big != null && y.big.signum() <= 0) {
      throw new EvalException(EC.TLC_MODULE_ARGUMENT_ERROR,
          new String[] {"second", "%", "positive number", Values.ppr(y.toString())});
    }
    if (x.big == null && y.big == null) return IntValue.genLong(Math.floorMod((long) x.val, (long) y.val));
    return IntValue.gen(x.toBig().mod(y.toBig()));
  }
  public static IntValue Expt(IntValue x, IntValue y) {
    if (y.big != null || y.val < 0) {
      throw new EvalException(EC.TLC_MODULE_ARGUMENT_ERROR,
          new String[] {"second", "^", "natural number", Values.ppr(y.toString())});
    }
    if (y.val == 0 && x.big == null && x.val == 0) throw new EvalException(EC.TLC_MODULE_NULL_POWER_NULL);
    return IntValue.gen(x.toBig().pow(y.val));
  }

  @Override public final int compareTo(Value s) {
    if (s instanceof UserValue) {
      if (((UserValue) s).userObj instanceof Naturals) return 0;
      if (((UserValue) s).userObj instanceof Integers) return -1;
    }
    if (s instanceof ModelValue) return 1;
    Assert.fail("Attempted to compare the set of numbers with the value:\n" + Values.ppr(s.toString()));
    return -1;
  }
  @Override public final boolean isFinite() { return false; }
  @Override public final boolean member(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val >= 0;
    if (v instanceof ModelValue) return ((ModelValue) v).modelValueMember(this);
    Assert.fail("Attempted to check if the value:\n" + Values.ppr(v.toString()) + "\nis in Nat.");
    return false;
  }
  @Override public final StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append("Nat"); }
}
