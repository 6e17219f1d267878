package verif;

import com.google.gson.JsonArray;
import com.google.gson.JsonElement;
import com.google.gson.JsonObject;
import com.google.gson.JsonParser;
import com.google.gson.JsonPrimitive;
import java.io.FileReader;
import java.io.IOException;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.RoundingMode;
import java.util.ArrayList;
import java.util.List;
import java.util.Map;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/** Operators of Num.tla: decimal arithmetic, elementary functions, and reading of traces. */
public final class Num {
  static final java.math.MathContext MC = RealVal.MC;
  static final BigDecimal LN2 =
      new BigDecimal("0.69314718055994530941723212145817656807550013436025525412068000949339362196969471560586");
  static final BigDecimal LIMIT = new BigDecimal("1e5");

  static BigDecimal b(Value x) {
    return RealVal.of(x).v;
  }

  static RealVal r(BigDecimal x) {
    return new RealVal(x);
  }

  static final RealVal U = RealVal.UNDEF;

  @TLAPlusOperator(identifier = "RInt", module = "Num", warn = false)
  public static Value rint(Value x) {
    return RealVal.of(x);
  }

  @TLAPlusOperator(identifier = "RDec", module = "Num", warn = false)
  public static Value rdec(Value x) {
    return parse(((StringValue) x).val.toString());
  }

  @TLAPlusOperator(identifier = "RAdd", module = "Num", warn = false)
  public static Value add(Value x, Value y) {
    BigDecimal a = b(x), c = b(y);
    return a == null || c == null ? U : r(a.add(c, MC));
  }

  @TLAPlusOperator(identifier = "RSub", module = "Num", warn = false)
  public static Value sub(Value x, Value y) {
    BigDecimal a = b(x), c = b(y);
    return a == null || c == null ? U : r(a.subtract(c, MC));
  }

  @TLAPlusOperator(identifier = "RMul", module = "Num", warn = false)
  public static Value mul(Value x, Value y) {
    BigDecimal a = b(x), c = b(y);
    return a == null || c == null ? U : r(a.multiply(c, MC));
  }

  @TLAPlusOperator(identifier = "RDiv", module = "Num", warn = false)
  public static Value div(Value x, Value y) {
    BigDecimal a = b(x), c = b(y);
    return a == null || c == null || c.signum() == 0 ? U : r(a.divide(c, MC));
  }

  @TLAPlusOperator(identifier = "RNeg", module = "Num", warn = false)
  public static Value neg(Value x) {
    BigDecimal a = b(x);
    return a == null ? U : r(a.negate());
  }

  @TLAPlusOperator(identifier = "RAbs", module = "Num", warn = false)
  public static Value abs(Value x) {
    BigDecimal a = b(x);
    return a == null ? U : r(a.abs());
  }

  @TLAPlusOperator(identifier = "RMax", module = "Num", warn = false)
  public static Value max(Value x, Value y) {
    BigDecimal a = b(x), c = b(y);
    return a == null || c == null ? U : r(a.max(c));
  }

  @TLAPlusOperator(identifier = "RMin", module = "Num", warn = false)
  public static Value min(Value x, Value y) {
    BigDecimal a = b(x), c = b(y);
    return a == null || c == null ? U : r(a.min(c));
  }

  @TLAPlusOperator(identifier = "RLe", module = "Num", warn = false)
  public static Value le(Value x, Value y) {
    BigDecimal a = b(x), c = b(y);
    return bool(a != null && c != null && a.compareTo(c) <= 0);
  }

  @TLAPlusOperator(identifier = "RLt", module = "Num", warn = false)
  public static Value lt(Value x, Value y) {
    BigDecimal a = b(x), c = b(y);
    return bool(a != null && c != null && a.compareTo(c) < 0);
  }

  @TLAPlusOperator(identifier = "REq", module = "Num", warn = false)
  public static Value eq(Value x, Value y) {
    BigDecimal a = b(x), c = b(y);
    return bool(a != null && c != null && a.compareTo(c) == 0);
  }

  @TLAPlusOperator(identifier = "RDef", module = "Num", warn = false)
  public static Value def(Value x) {
    return bool(b(x) != null);
  }

  /** |x - y| <= atol + rtol * max(|x|, |y|) */
  @TLAPlusOperator(identifier = "RNear", module = "Num", warn = false)
  public static Value near(Value x, Value y, Value rtol, Value atol) {
    BigDecimal a = b(x), c = b(y);
    BigDecimal ra = b(rtol), aa = b(atol);
    if (a == null || c == null || ra == null || aa == null) return bool(false);
    BigDecimal d = a.subtract(c, MC).abs();
    BigDecimal m = aa.add(ra.multiply(a.abs().max(c.abs()), MC), MC);
    return bool(d.compareTo(m) <= 0);
  }

  @TLAPlusOperator(identifier = "RSqrt", module = "Num", warn = false)
  public static Value sqrt(Value x) {
    BigDecimal a = b(x);
    return a == null || a.signum() < 0 ? U : r(a.sqrt(MC));
  }

  @TLAPlusOperator(identifier = "RExp", module = "Num", warn = false)
  public static Value exp(Value x) {
    BigDecimal a = b(x);
    if (a == null || a.compareTo(LIMIT) > 0) return U;
    if (a.compareTo(LIMIT.negate()) < 0) return r(BigDecimal.ZERO);
    return r(expBd(a));
  }

  static final java.math.MathContext W = new java.math.MathContext(44);

  static BigDecimal expBd(BigDecimal x) {
    BigInteger k = x.divide(LN2, W).setScale(0, RoundingMode.HALF_EVEN).toBigInteger();
    BigDecimal y = x.subtract(new BigDecimal(k).multiply(LN2, new java.math.MathContext(60)), W);
    y = y.divide(BigDecimal.valueOf(256), W);
    BigDecimal s = BigDecimal.ONE, t = BigDecimal.ONE;
    for (int i = 1; i < 40; i++) {
      t = t.multiply(y, W).divide(BigDecimal.valueOf(i), W);
      s = s.add(t, W);
      if (t.signum() == 0 || t.precision() - t.scale() < -46) break;
    }
    for (int i = 0; i < 8; i++) s = s.multiply(s, W);
    int ki = k.intValueExact();
    BigDecimal p = BigDecimal.valueOf(2).pow(Math.abs(ki), W);
    return ki >= 0 ? s.multiply(p, W) : s.divide(p, W);
  }

  @TLAPlusOperator(identifier = "RLog", module = "Num", warn = false)
  public static Value log(Value x) {
    BigDecimal a = b(x);
    if (a == null || a.signum() <= 0) return U;
    int e = a.precision() - a.scale(); // a = m * 10^e, 0.1 <= m < 1
    BigDecimal m = a.scaleByPowerOfTen(-e);
    BigDecimal y = new BigDecimal(Math.log(m.doubleValue()));
    for (int i = 0; i < 3; i++) { // Newton: y += m exp(-y) - 1 (to second order)
      BigDecimal ey = expBd(y);
      BigDecimal d = m.subtract(ey, W).multiply(BigDecimal.valueOf(2), W).divide(m.add(ey, W), W);
      y = y.add(d, W);
    }
    return r(y.add(LN10.multiply(BigDecimal.valueOf(e), W), W));
  }

  static final BigDecimal LN10 =
      new BigDecimal("2.30258509299404568401799145468436420760110148862877297603332790096757260967735248");

  /** Integer power. */
  @TLAPlusOperator(identifier = "RPow", module = "Num", warn = false)
  public static Value pow(Value x, Value n) {
    BigDecimal a = b(x);
    if (a == null) return U;
    int k = ((IntValue) n).val;
    if (k >= 0) return r(a.pow(k, MC));
    return a.signum() == 0 ? U : r(BigDecimal.ONE.divide(a.pow(-k, W), MC));
  }

  static BoolValue bool(boolean x) {
    return x ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  static Value[] elems(Value s) {
    Value t = s.toTuple();
    return t == null ? null : ((TupleValue) t).elems;
  }

  @TLAPlusOperator(identifier = "RPowR", module = "Num", warn = false)
  public static Value powr(Value x, Value y) {
    BigDecimal a = b(x), c = b(y);
    if (a == null || c == null || a.signum() < 0) {
      return U;
    }
    if (a.signum() == 0) {
      return c.signum() > 0 ? r(BigDecimal.ZERO) : c.signum() == 0 ? r(BigDecimal.ONE) : U;
    }
    return exp(mul(y, log(x)));
  }

  @TLAPlusOperator(identifier = "RSum", module = "Num", warn = false)
  public static Value sum(Value s) {
    BigDecimal acc = BigDecimal.ZERO;
    for (Value e : elems(s)) {
      BigDecimal a = b(e);
      if (a == null) return U;
      acc = acc.add(a, MC);
    }
    return r(acc);
  }

  @TLAPlusOperator(identifier = "RDot", module = "Num", warn = false)
  public static Value dot(Value s, Value t) {
    Value[] p = elems(s), q = elems(t);
    if (p.length != q.length) return U;
    BigDecimal acc = BigDecimal.ZERO;
    for (int i = 0; i < p.length; i++) {
      BigDecimal a = b(p[i]), c = b(q[i]);
      if (a == null || c == null) return U;
      acc = acc.add(a.multiply(c, MC), MC);
    }
    return r(acc);
  }

  @TLAPlusOperator(identifier = "RMaxSeq", module = "Num", warn = false)
  public static Value maxSeq(Value s) {
    BigDecimal m = null;
    for (Value e : elems(s)) {
      BigDecimal a = b(e);
      if (a == null) return U;
      m = m == null ? a : m.max(a);
    }
    return r(m);
  }

  @TLAPlusOperator(identifier = "RMinSeq", module = "Num", warn = false)
  public static Value minSeq(Value s) {
    BigDecimal m = null;
    for (Value e : elems(s)) {
      BigDecimal a = b(e);
      if (a == null) return U;
      m = m == null ? a : m.min(a);
    }
    return r(m);
  }

  /** What kind of value this is: "real", "int", "str", "bool", "seq", "rec" or "other". */
  @TLAPlusOperator(identifier = "Kind", module = "Num", warn = false)
  public static Value kind(Value x) {
    String k =
        x instanceof RealVal ? "real"
            : x instanceof IntValue ? "int"
                : x instanceof StringValue ? "str"
                    : x instanceof BoolValue ? "bool"
                        : x instanceof TupleValue ? "seq"
                            : x instanceof RecordValue ? "rec" : "other";
    return new StringValue(k);
  }

  // ------------------------------------------------------------------ reading of traces

  static RealVal parse(String s) {
    switch (s) {
      case "NaN":
      case "nan":
      case "inf":
      case "-inf":
      case "Infinity":
      case "-Infinity":
        return U;
      default:
        return new RealVal(new BigDecimal(s));
    }
  }

  static Value conv(JsonElement e) {
    if (e.isJsonNull()) return new StringValue("null");
    if (e.isJsonArray()) {
      JsonArray a = e.getAsJsonArray();
      Value[] vs = new Value[a.size()];
      for (int i = 0; i < vs.length; i++) vs[i] = conv(a.get(i));
      return new TupleValue(vs);
    }
    if (e.isJsonObject()) {
      JsonObject o = e.getAsJsonObject();
      List<UniqueString> ns = new ArrayList<>();
      List<Value> vs = new ArrayList<>();
      for (Map.Entry<String, JsonElement> x : o.entrySet()) {
        ns.add(UniqueString.uniqueStringOf(x.getKey()));
        vs.add(conv(x.getValue()));
      }
      RecordValue rv =
          new RecordValue(ns.toArray(new UniqueString[0]), vs.toArray(new Value[0]), false);
      rv.deepNormalize();
      return rv;
    }
    JsonPrimitive p = e.getAsJsonPrimitive();
    if (p.isBoolean()) return bool(p.getAsBoolean());
    if (p.isNumber()) {
      String s = p.getAsString();
      if (s.matches("-?[0-9]+") && s.length() < 10) return IntValue.gen(Integer.parseInt(s));
      return new RealVal(Double.isFinite(Double.parseDouble(s)) ? new BigDecimal(Double.parseDouble(s)) : null);
    }
    String str = p.getAsString();
    return str.equals("NaN") || str.equals("bad") ? U : new StringValue(str);
  }

  static final Map<String, Value> CACHE = new ConcurrentHashMap<>();

  /** The traces in a JSON file. Numbers without a point are integers, all others are reals. */
  @TLAPlusOperator(identifier = "LoadTraces", module = "Num", warn = false)
  public static synchronized Value load(Value path) throws IOException {
    String f = ((StringValue) path).val.toString();
    Value v = CACHE.get(f);
    if (v == null) {
      try (FileReader in = new FileReader(f)) {
        v = conv(JsonParser.parseReader(in));
      }
      CACHE.put(f, v);
    }
    return v;
  }

  private static final Object LOCK = new Object();

  /** The value itself, completely evaluated (TLC evaluates functions lazily, again at each application). */
  @TLAPlusOperator(identifier = "Now", module = "Num", warn = false)
  public static Value now(Value x) {
    if (x instanceof RealVal || x instanceof IntValue || x instanceof StringValue || x instanceof BoolValue) {
      return x;
    }
    if (x instanceof RecordValue) {
      RecordValue rec = (RecordValue) x;
      Value[] vs = new Value[rec.values.length];
      for (int i = 0; i < vs.length; i++) {
        vs[i] = now(rec.values[i]);
      }
      return new RecordValue(rec.names, vs, rec.isNormalized());
    }
    Value t = x.toTuple();
    if (t == null) {
      return x;
    }
    Value[] es = ((TupleValue) t).elems;
    Value[] out = new Value[es.length];
    for (int i = 0; i < es.length; i++) {
      out[i] = now(es[i]);
    }
    return new TupleValue(out);
  }

  /** Report of one event whose clauses do not all hold: one line per report. Always TRUE. */
  @TLAPlusOperator(identifier = "Report", module = "Num", warn = false)
  public static Value report(Value x) {
    String s = x.toString().replaceAll("\\s+", " ");
    synchronized (LOCK) {
      System.out.println("@@REPORT " + s);
      System.out.flush();
    }
    return BoolValue.ValTrue;
  }

  /** Value of an environment variable, or the default. */
  @TLAPlusOperator(identifier = "EnvOr", module = "Num", warn = false)
  public static Value env(Value n, Value d) {
    String s = System.getenv(((StringValue) n).val.toString());
    return s == null ? d : new StringValue(s);
  }
}
