import java.math.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC module override for BigRat.tla: exact rational arithmetic on numbers written as TLA+ strings
 *  ("3/7", "-2", "0.125", "1.5e-7").  "nan" is absorbing and compares FALSE with everything, so a
 *  verdict over measured values is always total.  Transcendental operators return a rational
 *  accurate to about 45 digits. */
public class BigRat {
  static final MathContext MC = new MathContext(60);
  static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) {
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      BigInteger g = n.gcd(d);
      if (!g.equals(BigInteger.ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
      this.n = n; this.d = d;
    }
  }
  static Q dec(BigDecimal b) {
    if (b.scale() >= 0) return new Q(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
    return new Q(b.unscaledValue().multiply(BigInteger.TEN.pow(-b.scale())), BigInteger.ONE);
  }
  static Q parse(Object v) {
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    if (!(v instanceof StringValue)) return null;
    String s = ((StringValue) v).val.toString();
    try {
      int i = s.indexOf('/');
      if (i >= 0) {
        BigInteger d = new BigInteger(s.substring(i + 1));
        if (d.signum() == 0) return null;
        return new Q(new BigInteger(s.substring(0, i)), d);
      }
      BigDecimal b = new BigDecimal(s);
      if (Math.abs((long) b.scale()) > 100000L) return null;
      return dec(b);
    } catch (NumberFormatException e) { return null; }
  }
  static final StringValue NAN = new StringValue("nan");
  static Value out(Q q) {
    if (q == null) return NAN;
    return new StringValue(q.d.equals(BigInteger.ONE) ? q.n.toString() : q.n + "/" + q.d);
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Q add(Q a, Q b) { return a == null || b == null ? null : new Q(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d)); }
  static Q neg(Q a) { return a == null ? null : new Q(a.n.negate(), a.d); }
  static Q mul(Q a, Q b) { return a == null || b == null ? null : new Q(a.n.multiply(b.n), a.d.multiply(b.d)); }
  static Q div(Q a, Q b) { return a == null || b == null || b.n.signum() == 0 ? null : new Q(a.n.multiply(b.d), a.d.multiply(b.n)); }
  static int cmp(Q a, Q b) { return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }
  static BigDecimal bd(Q a) { return new BigDecimal(a.n).divide(new BigDecimal(a.d), MC); }

  public static Value RNorm(Value a) { return out(parse(a)); }
  public static Value RAdd(Value a, Value b) { return out(add(parse(a), parse(b))); }
  public static Value RSub(Value a, Value b) { return out(add(parse(a), neg(parse(b)))); }
  public static Value RMul(Value a, Value b) { return out(mul(parse(a), parse(b))); }
  public static Value RDiv(Value a, Value b) { return out(div(parse(a), parse(b))); }
  public static Value RNeg(Value a) { return out(neg(parse(a))); }
  public static Value RAbs(Value a) { Q q = parse(a); return out(q == null ? null : new Q(q.n.abs(), q.d)); }
  public static Value RLeq(Value a, Value b) { Q x = parse(a), y = parse(b); return bool(x != null && y != null && cmp(x, y) <= 0); }
  public static Value RLt(Value a, Value b) { Q x = parse(a), y = parse(b); return bool(x != null && y != null && cmp(x, y) < 0); }
  public static Value REq(Value a, Value b) { Q x = parse(a), y = parse(b); return bool(x != null && y != null && cmp(x, y) == 0); }
  public static Value RIsNum(Value a) { return bool(parse(a) != null); }
  /** |a-b| <= tol */
  public static Value RClose(Value a, Value b, Value tol) {
    Q x = parse(a), y = parse(b), t = parse(tol);
    if (x == null || y == null || t == null) return BoolValue.ValFalse;
    Q d = add(x, neg(y));
    return bool(cmp(new Q(d.n.abs(), d.d), t) <= 0);
  }
  static Value[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    return t == null ? null : ((TupleValue) t).elems;
  }
  public static Value RSum(Value s) {
    Q acc = new Q(BigInteger.ZERO, BigInteger.ONE);
    Value[] es = elems(s);
    if (es == null) return NAN;
    for (Value e : es) acc = add(acc, parse(e));
    return out(acc);
  }
  /** sequences of equal length, element-wise within tol */
  public static Value RSeqClose(Value s, Value t, Value tol) {
    Value[] a = elems(s), b = elems(t);
    if (a == null || b == null || a.length != b.length) return BoolValue.ValFalse;
    for (int i = 0; i < a.length; i++) if (RClose(a[i], b[i], tol) != BoolValue.ValTrue) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  /** round to k decimal places (half up) */
  public static Value RRound(Value a, Value k) {
    Q q = parse(a);
    if (q == null) return NAN;
    return out(dec(new BigDecimal(q.n).divide(new BigDecimal(q.d), ((IntValue) k).val, RoundingMode.HALF_UP)));
  }
  public static Value RFloor(Value a) {
    Q q = parse(a);
    if (q == null) return NAN;
    BigInteger[] qr = q.n.divideAndRemainder(q.d);
    return out(new Q(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0], BigInteger.ONE));
  }
  public static Value RSqrt(Value a) {
    Q q = parse(a);
    if (q == null || q.n.signum() < 0) return NAN;
    BigInteger n = q.n.sqrt(), d = q.d.sqrt();
    if (n.multiply(n).equals(q.n) && d.multiply(d).equals(q.d)) return out(new Q(n, d));
    return out(dec(bd(q).sqrt(MC)));
  }
  static BigDecimal exp(BigDecimal x) {
    int k = 0;
    BigDecimal y = x;
    while (y.abs().compareTo(new BigDecimal("0.5")) > 0) { y = y.divide(BigDecimal.valueOf(2), MC); k++; }
    BigDecimal t = BigDecimal.ONE, s = BigDecimal.ONE;
    for (int i = 1; i < 60; i++) { t = t.multiply(y, MC).divide(BigDecimal.valueOf(i), MC); s = s.add(t, MC); }
    for (int i = 0; i < k; i++) s = s.multiply(s, MC);
    return s;
  }
  static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459");
  static BigDecimal sin(BigDecimal x) {
    BigDecimal two = PI.multiply(BigDecimal.valueOf(2));
    x = x.subtract(two.multiply(x.divide(two, 0, RoundingMode.HALF_EVEN)));
    BigDecimal t = x, s = x, x2 = x.multiply(x, MC);
    for (int i = 1; i < 60; i++) {
      t = t.multiply(x2, MC).divide(BigDecimal.valueOf((2L * i) * (2L * i + 1)), MC).negate();
      s = s.add(t, MC);
    }
    return s;
  }
  public static Value RExp(Value a) { Q q = parse(a); if (q == null || bd(q).abs().compareTo(BigDecimal.valueOf(5000)) > 0) return NAN; return out(dec(exp(bd(q)).round(MC))); }
  public static Value RSin(Value a) { Q q = parse(a); return q == null ? NAN : out(dec(sin(bd(q)).round(new MathContext(45)))); }
  public static Value RCos(Value a) { Q q = parse(a); return q == null ? NAN : out(dec(sin(PI.divide(BigDecimal.valueOf(2)).add(bd(q))).round(new MathContext(45)))); }
  public static Value RPi() { return out(dec(PI)); }
}
