/* Module override of Rat.tla: exact arithmetic on rational numbers of any size.
   TLC's own integers are 32 bit, so the operators of Rat.tla, whose TLA+ definitions are the plain
   mathematical ones, are evaluated here with java.math.BigInteger. Nothing about splines is decided here. */
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import tlc2.util.FP64;
import util.UniqueString;

public class Rat {
  public static final class RV extends Value {
    final BigInteger n, d;   // d > 0, gcd = 1; n == null: not a number
    final String special;    // "nan", "inf", "-inf" when n == null
    RV(BigInteger n, BigInteger d) {
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      if (!d.equals(BigInteger.ONE)) {
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
      }
      this.n = n; this.d = d; this.special = null;
    }
    RV(BigInteger n) { this.n = n; this.d = BigInteger.ONE; this.special = null; }
    RV(String special) { this.n = null; this.d = null; this.special = special; }
    public byte getKind() { return USERVALUE; }
    public String getKindString() { return "a rational"; }
    public boolean member(Value v) { throw new RuntimeException("rational used as a set"); }
    public Value takeExcept(ValueExcept ex) {
      if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT inside a rational");
      return ex.value;
    }
    public Value takeExcept(ValueExcept[] ex) { throw new RuntimeException("EXCEPT on a rational"); }
    public Value normalize() { return this; }
    public boolean isNormalized() { return true; }
    public void deepNormalize() { }
    public boolean isFinite() { throw new RuntimeException("rational used as a set"); }
    public int size() { throw new RuntimeException("rational used as a set"); }
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public boolean mutates() { return false; }
    public int compareTo(Object o) {
      if (!(o instanceof RV)) throw new RuntimeException("comparing rational " + str() + " with " + o);
      RV v = (RV) o;
      if (n == null || v.n == null) return str().compareTo(v.str());
      return cmp(this, v);
    }
    public boolean equals(Object o) {
      if (!(o instanceof RV)) throw new RuntimeException("equality of rational " + str() + " with " + o);
      RV v = (RV) o;
      if (n == null || v.n == null) return n == null && v.n == null && special.equals(v.special);
      return n.equals(v.n) && d.equals(v.d);
    }
    public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, "rat:"), str()); }
    public IValue permute(IMVPerm perm) { return this; }
    String str() { return n == null ? special : d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }
    public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
      if (n == null) return sb.append(special);
      if (n.bitLength() < 24 && d.bitLength() < 24) return sb.append(str());
      return sb.append("~").append(toDouble(this));
    }
  }

  private static final ConcurrentHashMap<String, RV> CACHE = new ConcurrentHashMap<>();
  private static final RV NAN = new RV("nan");
  private static final RV ZERO = new RV(BigInteger.ZERO);

  static int cmp(RV a, RV b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }

  static double toDouble(RV a) {
    if (a.n == null) return a.special.equals("inf") ? Double.POSITIVE_INFINITY
        : a.special.equals("-inf") ? Double.NEGATIVE_INFINITY : Double.NaN;
    return new BigDecimal(a.n).divide(new BigDecimal(a.d), new MathContext(60)).doubleValue();
  }

  static RV fromDouble(double x) {
    if (Double.isNaN(x)) return NAN;
    if (Double.isInfinite(x)) return new RV(x > 0 ? "inf" : "-inf");
    return fromDecimal(new BigDecimal(x));
  }

  static RV fromDecimal(BigDecimal b) {
    if (b.scale() <= 0) return new RV(b.toBigIntegerExact());
    return new RV(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
  }

  /* "n/d" and plain integers are exact; everything else is the value of the C double it denotes. */
  static RV parse(String s) {
    RV r = CACHE.get(s);
    if (r != null) return r;
    if (s.equals("nan") || s.equals("-nan")) r = NAN;
    else if (s.equals("inf")) r = new RV("inf");
    else if (s.equals("-inf")) r = new RV("-inf");
    else if (s.startsWith("#")) r = fromDecimal(new BigDecimal(s.substring(1)));  // "#1.25": the exact decimal
    else if (s.indexOf('/') >= 0) {
      int i = s.indexOf('/');
      r = new RV(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    } else r = fromDouble(Double.parseDouble(s));
    if (CACHE.size() < 2000000) CACHE.put(s, r);
    return r;
  }

  static RV c(Value v) {
    if (v instanceof RV) return (RV) v;
    if (v instanceof IntValue) return new RV(BigInteger.valueOf(((IntValue) v).val));
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    throw new RuntimeException("not a rational: " + v);
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static RV add(RV a, RV y) {
    if (a.n == null || y.n == null) return NAN;
    if (a.n.signum() == 0) return y;
    if (y.n.signum() == 0) return a;
    if (a.d.equals(y.d)) return new RV(a.n.add(y.n), a.d);
    return new RV(a.n.multiply(y.d).add(y.n.multiply(a.d)), a.d.multiply(y.d));
  }
  static RV neg(RV a) { return a.n == null ? NAN : new RV(a.n.negate(), a.d); }
  static RV mul(RV a, RV y) {
    if (a.n == null || y.n == null) return NAN;
    if (a.n.signum() == 0 || y.n.signum() == 0) return ZERO;
    return new RV(a.n.multiply(y.n), a.d.multiply(y.d));
  }
  static RV div(RV a, RV y) {
    if (a.n == null || y.n == null || y.n.signum() == 0) return NAN;
    return new RV(a.n.multiply(y.d), a.d.multiply(y.n));
  }
  static RV abs(RV a) { return a.n == null ? NAN : a.n.signum() < 0 ? neg(a) : a; }

  public static Value R(Value a) { return c(a); }
  public static Value RAdd(Value a, Value y) { return add(c(a), c(y)); }
  public static Value RSub(Value a, Value y) { return add(c(a), neg(c(y))); }
  public static Value RMul(Value a, Value y) { return mul(c(a), c(y)); }
  public static Value RDiv(Value a, Value y) { return div(c(a), c(y)); }
  public static Value RAbs(Value a) { return abs(c(a)); }
  public static Value RLt(Value a, Value y) {
    RV p = c(a), q = c(y);
    return b(p.n != null && q.n != null && cmp(p, q) < 0);
  }
  public static Value RLeq(Value a, Value y) {
    RV p = c(a), q = c(y);
    return b(p.n != null && q.n != null && cmp(p, q) <= 0);
  }
  public static Value REq(Value a, Value y) {
    RV p = c(a), q = c(y);
    return b(p.n != null && q.n != null && cmp(p, q) == 0);
  }
  public static Value IsNum(Value a) { return b(c(a).n != null); }
  public static Value RSqrt(Value a) {
    RV p = c(a);
    if (p.n == null || p.n.signum() < 0) return NAN;
    BigInteger s = BigInteger.ONE.shiftLeft(160);
    return new RV(p.n.multiply(p.d).multiply(s).multiply(s).sqrt(), p.d.multiply(s));
  }
  public static Value RFloor(Value a) {
    RV p = c(a);
    return IntValue.gen(p.n.divide(p.d).subtract(p.n.signum() < 0 && p.n.mod(p.d).signum() != 0 ? BigInteger.ONE
        : BigInteger.ZERO).intValueExact());
  }
  public static Value RDecimals(Value a, Value k) {
    RV p = c(a);
    if (p.n == null) return p;
    int places = ((IntValue) k).val;
    BigInteger t = BigInteger.TEN.pow(places), num = p.n.multiply(t);
    BigInteger[] qr = num.abs().divideAndRemainder(p.d);
    int h = qr[1].shiftLeft(1).compareTo(p.d);
    BigInteger q = h > 0 || (h == 0 && qr[0].testBit(0)) ? qr[0].add(BigInteger.ONE) : qr[0];
    return new RV(num.signum() < 0 ? q.negate() : q, t);
  }
  public static Value RDouble(Value a) { return fromDouble(toDouble(c(a))); }
  public static Value RStr(Value a) { return new StringValue(c(a).str()); }
  static Value[] elems(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  public static Value RSum(Value s) {
    RV r = ZERO;
    for (Value v : elems(s)) r = add(r, c(v));
    return r;
  }
  public static Value RDot(Value s, Value t) {
    Value[] a = elems(s), y = elems(t);
    if (a.length != y.length) throw new RuntimeException("RDot: lengths " + a.length + " " + y.length);
    RV r = ZERO;
    for (int i = 0; i < a.length; i++) r = add(r, mul(c(a[i]), c(y[i])));
    return r;
  }
  public static Value RSeq(Value s) {
    Value[] a = elems(s), r = new Value[a.length];
    for (int i = 0; i < a.length; i++) r[i] = c(a[i]);
    return new TupleValue(r);
  }
  /* |a - b| <= tol * max(1, |a|, |b|) */
  static boolean near(RV p, RV q, RV t) {
    if (p.n == null || q.n == null) return false;
    RV m = abs(p), o = abs(q), one = new RV(BigInteger.ONE);
    if (cmp(m, o) < 0) m = o;
    if (cmp(m, one) < 0) m = one;
    return cmp(abs(add(p, neg(q))), mul(t, m)) <= 0;
  }
  public static Value RNear(Value a, Value y, Value t) { return b(near(c(a), c(y), c(t))); }
  public static Value RNearSeq(Value s, Value u, Value t) {
    Value[] a = elems(s), y = elems(u);
    if (a.length != y.length) return b(false);
    RV tol = c(t);
    for (int i = 0; i < a.length; i++) if (!near(c(a[i]), c(y[i]), tol)) return b(false);
    return b(true);
  }
  /* sum_k c[k] * v[k], vectors as sequences */
  public static Value VComb(Value cs, Value vs) {
    Value[] w = elems(cs), v = elems(vs);
    if (w.length != v.length || v.length == 0) throw new RuntimeException("VComb: lengths " + w.length + " " + v.length);
    RV[] r = null;
    for (int k = 0; k < v.length; k++) {
      Value[] e = elems(v[k]);
      RV f = c(w[k]);
      if (r == null) {
        r = new RV[e.length];
        java.util.Arrays.fill(r, ZERO);
      }
      if (r.length != e.length) throw new RuntimeException("VComb: vectors of different length");
      if (f.n != null && f.n.signum() == 0) continue;
      for (int i = 0; i < r.length; i++) r[i] = add(r[i], mul(f, c(e[i])));
    }
    return new TupleValue(r);
  }
  public static Value VNear(Value a, Value y, Value t) { return RNearSeq(a, y, t); }
}
