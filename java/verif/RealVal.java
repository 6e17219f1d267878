package verif;

import java.io.IOException;
import java.math.BigDecimal;
import java.math.MathContext;
import tlc2.tool.FingerprintException;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.ValueConstants;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/**
 * A decimal number with 34 significant digits, as a TLC value. One special value, "undef", stands
 * for not-a-number and for the infinities: every operation on it yields it, every comparison with
 * it is false.
 */
public final class RealVal extends Value {
  public static final MathContext MC = new MathContext(34);
  public static final RealVal UNDEF = new RealVal(null);
  final BigDecimal v;

  public RealVal(BigDecimal v) {
    this.v = v == null ? null : v.round(MC);
  }

  static RealVal of(Value x) {
    if (x instanceof RealVal) return (RealVal) x;
    if (x instanceof IntValue) return new RealVal(BigDecimal.valueOf(((IntValue) x).val));
    return UNDEF;
  }

  @Override
  public byte getKind() {
    return ValueConstants.USERVALUE;
  }

  @Override
  public int compareTo(Object o) {
    if (o instanceof Value) {
      RealVal r = of((Value) o);
      if (v == null) return r.v == null ? 0 : -1;
      if (r.v == null) return 1;
      return v.compareTo(r.v);
    }
    return -1;
  }

  @Override
  public boolean equals(Object o) {
    return o instanceof Value && compareTo(o) == 0;
  }

  @Override
  public boolean member(Value x) {
    return false;
  }

  @Override
  public Value takeExcept(ValueExcept ex) {
    return ex.idx < ex.path.length ? this : ex.value;
  }

  @Override
  public Value takeExcept(ValueExcept[] exs) {
    return this;
  }

  @Override
  public Value normalize() {
    return this;
  }

  @Override
  public boolean isNormalized() {
    return true;
  }

  @Override
  public boolean isFinite() {
    return true;
  }

  @Override
  public int size() {
    return 1;
  }

  @Override
  public boolean isDefined() {
    return true;
  }

  @Override
  public IValue deepCopy() {
    return this;
  }

  @Override
  public long fingerPrint(long fp) {
    return FP64.Extend(fp, str());
  }

  @Override
  public IValue permute(IMVPerm p) {
    return this;
  }

  @Override
  public void write(IValueOutputStream vos) throws IOException {
    throw new IOException("RealVal: only in-memory state queues are supported");
  }

  String str() {
    return v == null ? "R:undef" : "R:" + v.stripTrailingZeros().toString();
  }

  @Override
  public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    if (v == null) return sb.append("undef");
    return sb.append(Double.toString(v.doubleValue()));
  }
}
