package fpv;

import java.math.BigInteger;
import java.util.*;

/**
 * Folds the derived normal forms at given values of their variables. Used only to confirm that two
 * normal forms which look different are different functions.
 */
final class Fold {
  final Map<String, BigInteger> vars = new HashMap<>();
  final Map<String, List<BigInteger>> tables;
  final Map<String, String> loops;
  private final Map<T, Object> memo = new HashMap<>();
  private static final Object NONE = new Object();

  Fold(Map<String, List<BigInteger>> tables, Map<String, String> loops) {
    this.tables = tables;
    this.loops = loops;
  }

  void reset() {
    memo.clear();
  }

  /** Does the point satisfy the facts? null when that cannot be told. */
  Boolean holds(Facts f) {
    boolean known = true;
    for (Lin l : f.eq) {
      BigInteger v = num(l);
      if (v == null) known = false;
      else if (v.signum() != 0) return false;
    }
    for (Lin l : f.ge) {
      BigInteger v = num(l);
      if (v == null) known = false;
      else if (v.signum() < 0) return false;
    }
    for (Lin l : f.ne) {
      BigInteger v = num(l);
      if (v == null) known = false;
      else if (v.signum() == 0) return false;
    }
    return known ? true : null;
  }

  BigInteger num(Val v) {
    if (!(v instanceof Lin)) {
      Object o = v instanceof T ? value((T) v) : null;
      return o instanceof BigInteger ? (BigInteger) o : null;
    }
    Lin l = (Lin) v;
    BigInteger r = l.c;
    for (int i = 0; i < l.atoms.length; i++) {
      Object x = value(l.atoms[i]);
      if (!(x instanceof BigInteger)) return null;
      r = r.add(l.coef[i].multiply((BigInteger) x));
    }
    return r;
  }

  String text(List<Seg> segs) {
    StringBuilder sb = new StringBuilder();
    for (Seg s : segs) {
      if (s.k == Seg.K.LIT) sb.append(s.lit);
      else if (s.k == Seg.K.RUN) {
        BigInteger c = num(s.ch), n = num(s.n);
        if (c == null || n == null || n.signum() < 0 || n.bitLength() > 12 || s.upper) return null;
        for (int i = 0; i < n.intValue(); i++) sb.append((char) c.intValue());
      } else {
        Object b = value(s.base);
        BigInteger from = num(s.from), to = num(s.to);
        if (!(b instanceof String) || from == null || to == null || s.upper) return null;
        String t = (String) b;
        if (from.signum() < 0 || to.compareTo(from) < 0 || to.compareTo(BigInteger.valueOf(t.length())) > 0) return null;
        sb.append(t, from.intValue(), to.intValue());
      }
    }
    return sb.toString();
  }

  /** A number or a text, null when unknown. */
  Object value(T t) {
    Object o = memo.get(t);
    if (o == null) {
      o = compute(t);
      memo.put(t, o == null ? NONE : o);
    }
    return o == NONE ? null : o;
  }

  private static BigInteger wrap(BigInteger x, int bits, boolean signed) {
    BigInteger m = Terms.pow2(bits), r = x.mod(m);
    return signed && r.compareTo(m.shiftRight(1)) >= 0 ? r.subtract(m) : r;
  }

  private Object compute(T t) {
    if (t.args.isEmpty() || t.fn.equals("bits") || t.fn.equals("dclass")) return vars.get(t.fn);
    if (t.fn.equals("LEN")) {
      Object s = t.args.get(0) instanceof T ? value((T) t.args.get(0)) : null;
      return s instanceof String ? BigInteger.valueOf(((String) s).length()) : null;
    }
    if (t.fn.startsWith("loop:")) return loop(t);
    if (t.fn.equals("CHAR")) {
      Object s = t.args.get(0) instanceof T ? value((T) t.args.get(0)) : null;
      BigInteger i = num(t.args.get(1));
      return s instanceof String && i != null && i.signum() >= 0 && i.bitLength() < 20 && i.intValue() < ((String) s).length() ? BigInteger.valueOf(((String) s).charAt(i.intValue())) : null;
    }
    BigInteger[] a = new BigInteger[t.args.size()];
    for (int i = 0; i < a.length; i++) {
      a[i] = num(t.args.get(i));
      if (a[i] == null) return null;
    }
    int mb = Terms.modBits(t.fn);
    if (mb > 0) return wrap(a[0], mb, t.fn.charAt(0) == 's');
    if (t.fn.startsWith("TABLE:")) {
      List<BigInteger> l = tables.get(t.fn);
      return l == null || a[0].signum() < 0 || a[0].compareTo(BigInteger.valueOf(l.size())) >= 0 ? null : l.get(a[0].intValue());
    }
    int bits = t.fn.endsWith("32") ? 32 : 64;
    switch (t.fn) {
      case "and":
      case "and32":
      case "and64":
        return a[0].and(a[1]);
      case "or":
      case "or32":
      case "or64":
        return a[0].or(a[1]);
      case "xor":
      case "xor32":
      case "xor64":
        return a[0].xor(a[1]);
      case "mul32":
      case "mul64":
        return wrap(a[0].multiply(a[1]), bits, true);
      case "shl32":
      case "shl64":
        return wrap(a[0].shiftLeft(a[1].intValue() & bits - 1), bits, true);
      case "shr32":
      case "shr64":
        return a[0].shiftRight(a[1].intValue() & bits - 1);
      case "ushr32":
      case "ushr64":
        return wrap(wrap(a[0], bits, false).shiftRight(a[1].intValue() & bits - 1), bits, true);
      case "shr":
      case "shru":
        return a[0].shiftRight(a[1].intValue());
      case "div":
        return a[1].signum() == 0 ? null : a[0].divide(a[1]);
      case "rem":
        return a[1].signum() == 0 ? null : a[0].remainder(a[1]);
      case "multiplyHigh":
        return a[0].multiply(a[1]).shiftRight(64);
      case "Long.numberOfLeadingZeros":
        return BigInteger.valueOf(a[0].signum() < 0 ? 0 : 64 - a[0].bitLength());
      case "Long.numberOfTrailingZeros":
        return BigInteger.valueOf(a[0].signum() == 0 ? 64 : a[0].getLowestSetBit());
      default:
        return null;
    }
  }

  /** Loops whose code is that of the reference have a known meaning. */
  private Object loop(T t) {
    boolean result = t.fn.endsWith(":result");
    String kind = loops.get(result ? t.fn.substring(0, t.fn.length() - 7) : t.fn);
    if (kind == null) return null;
    int at = result ? 0 : 1;
    boolean digits = kind.equals("digits");
    BigInteger[] a = new BigInteger[digits ? 3 : 2];
    for (int i = 0; i < a.length; i++) {
      a[i] = num(t.args.get(at + i));
      if (a[i] == null) return null;
    }
    int from = a[a.length - 2].intValue(), to = a[a.length - 1].intValue();
    if (result) return digits ? to > from ? a[0].divide(BigInteger.TEN.pow(to - from)) : a[0] : null;
    String old = t.args.get(0) instanceof TextV ? text(((TextV) t.args.get(0)).segs) : null;
    if (old == null || to > from && (from < 0 || to > old.length())) return null;
    char[] c = old.toCharArray();
    BigInteger x = digits ? a[0] : BigInteger.ZERO;
    for (int i = to - 1; i >= from; i--) {
      BigInteger[] q = x.divideAndRemainder(BigInteger.TEN);
      c[i] = (char) ('0' + q[1].intValue());
      x = q[0];
    }
    return new String(c);
  }
}
