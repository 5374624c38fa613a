package tlc2.value.impl;

import java.io.IOException;
import java.math.BigInteger;

import tlc2.tool.FingerprintException;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.Values;
import util.Assert;

/**
 * Drop-in replacement for TLC's 32-bit IntValue: an integer of any size.
 *
 * TLA+ integers are unbounded; stock TLC evaluates them in 32 bits and stops with an error on
 * overflow, which rules out a specification at the real parameters of Ed448 (448-bit field).
 * An integer strictly between Integer.MIN_VALUE and Integer.MAX_VALUE is held in `val` (big ==
 * null), exactly as in stock TLC. Every other integer is held in `big`, and its `val` is the
 * sentinel MAX_VALUE / MIN_VALUE according to sign, so that TLC code that reads `val` (interval
 * membership, sequence indexing) sees an integer larger / smaller than every small one.
 */
public class IntValue extends Value {
  private static final IntValue[] cache = new IntValue[1024];
  static {
    for (int i = 0; i < cache.length; i++) cache[i] = new IntValue(i);
  }
  public static final IntValue ValNegOne = gen(-1);
  public static final IntValue ValOne = gen(1);
  public static final IntValue ValZero = gen(0);

  private static final BigInteger MAXB = BigInteger.valueOf(Integer.MAX_VALUE);
  private static final BigInteger MINB = BigInteger.valueOf(Integer.MIN_VALUE);

  public final int val;
  /** null iff the integer is small. */
  public final BigInteger big;

  private IntValue(int val) { this.val = val; this.big = null; }
  private IntValue(BigInteger b) {
    this.big = b;
    this.val = b.signum() < 0 ? Integer.MIN_VALUE : Integer.MAX_VALUE;
  }

  public static final int nbits(int tmp) {
    int nb = 0;
    while (tmp != 0 && tmp != -1) { nb++; tmp >>= 1; }
    return nb + 1;
  }
  public final int nbits() { return nbits(this.val); }

  public static IntValue sum(IntValue a, IntValue b) { return gen((long) a.val + b.val, a, b); }
  private static IntValue gen(long s, IntValue a, IntValue b) {
    if (a.big == null && b.big == null) return genLong(s);
    return gen(a.toBig().add(b.toBig()));
  }

  public static IntValue gen(int i) {
    if (i >= 0 && i < cache.length) return cache[i];
    if (i == Integer.MAX_VALUE || i == Integer.MIN_VALUE) return new IntValue(BigInteger.valueOf(i));
    return new IntValue(i);
  }
  public static IntValue genLong(long l) {
    if (l > Integer.MIN_VALUE && l < Integer.MAX_VALUE) return gen((int) l);
    return new IntValue(BigInteger.valueOf(l));
  }
  public static IntValue gen(BigInteger b) {
    if (b.bitLength() <= 31 && b.compareTo(MINB) > 0 && b.compareTo(MAXB) < 0) return gen(b.intValue());
    return new IntValue(b);
  }
  public static Value narrowToIntValue(long l) { return genLong(l); }

  public final BigInteger toBig() { return big != null ? big : BigInteger.valueOf(val); }

  @Override public final byte getKind() { return INTVALUE; }

  @Override
  public final int compareTo(Object obj) {
    if (obj instanceof IntValue) {
      IntValue o = (IntValue) obj;
      if (big != null && o.big != null) return big.compareTo(o.big);
      return Integer.compare(val, o.val);
    }
    if (!(obj instanceof ModelValue)) {
      Assert.fail("Attempted to compare integer " + Values.ppr(this.toString()) + " with non-integer:\n"
          + Values.ppr(obj.toString()), getSource());
    }
    return ((ModelValue) obj).modelValueCompareTo(this);
  }

  @Override
  public final boolean equals(Object obj) {
    if (obj instanceof IntValue) {
      IntValue o = (IntValue) obj;
      if (big != null) return o.big != null && big.equals(o.big);
      return o.big == null && val == o.val;
    }
    if (!(obj instanceof ModelValue)) {
      Assert.fail("Attempted to check equality of integer " + Values.ppr(this.toString())
          + " with non-integer:\n" + Values.ppr(obj.toString()), getSource());
    }
    return ((ModelValue) obj).modelValueEquals(this);
  }

  @Override
  public final boolean member(Value elem) {
    Assert.fail("Attempted to check if the value:\n" + Values.ppr(elem.toString())
        + "\nis an element of the integer " + Values.ppr(this.toString()), getSource());
    return false;
  }
  @Override
  public final boolean isFinite() {
    Assert.fail("Attempted to check if the integer " + Values.ppr(this.toString()) + " is a finite set.",
        getSource());
    return false;
  }
  @Override
  public final Value takeExcept(ValueExcept ex) {
    if (ex.idx < ex.path.length) {
      Assert.fail("Attempted to appy EXCEPT construct to the integer " + Values.ppr(this.toString()) + ".",
          getSource());
    }
    return ex.value;
  }
  @Override
  public final Value takeExcept(ValueExcept[] exs) {
    if (exs.length != 0) {
      Assert.fail("Attempted to apply EXCEPT construct to the integer " + Values.ppr(this.toString()) + ".",
          getSource());
    }
    return this;
  }
  @Override
  public final int size() {
    Assert.fail("Attempted to compute the number of elements in the integer "
        + Values.ppr(this.toString()) + ".", getSource());
    return 0;
  }
  @Override public boolean mutates() { return false; }
  @Override public final boolean isNormalized() { return true; }
  @Override public final Value normalize() { return this; }
  @Override public final boolean isDefined() { return true; }
  @Override public final IValue deepCopy() { return this; }

  @Override
  public void write(final IValueOutputStream vos) throws IOException {
    if (big != null) throw new IOException("big integers cannot be spilled to disk: keep them out of the state queue");
    vos.writeByte(INTVALUE);
    vos.writeInt(val);
  }

  @Override
  public final long fingerPrint(long fp) {
    fp = FP64.Extend(fp, INTVALUE);
    if (big == null) return FP64.Extend(fp, this.val);
    byte[] b = big.toByteArray();
    return FP64.Extend(fp, b, 0, b.length);
  }
  @Override public final IValue permute(IMVPerm perm) { return this; }

  @Override
  public final StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    return big != null ? sb.append(big.toString()) : sb.append(val);
  }
}
