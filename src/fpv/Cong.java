package fpv;

import java.math.BigInteger;
import java.util.*;

/**
 * Points of a polyhedron in which equal arguments have equal images: atoms that apply one function to
 * arguments the point makes equal must have one value, and wraps, digit counts, divisions and bit
 * operations have the value their meaning gives. Cases are told apart until that holds.
 */
final class Cong {
  /** Facts with such a point, null if there are none or none was found. */
  final Facts where;

  /** No point found, and every case was shown empty. */
  final boolean impossible;

  private Cong(Facts w, boolean i) {
    where = w;
    impossible = i;
  }

  static Cong find(Facts f) {
    return find(f, 120);
  }

  static Cong find(Facts f, int steps) {
    int[] budget = {steps};
    boolean[] open = {false};
    Facts w = go(f, budget, open, 0);
    return new Cong(w, w == null && !open[0]);
  }

  private static Facts go(Facts f, int[] budget, boolean[] open, int depth) {
    if (--budget[0] < 0 || depth > 14 || System.nanoTime() > Interp.deadline) {
      open[0] = true;
      return null;
    }
    Map<T, BigInteger> pt = f.point();
    if (pt == null) {
      open[0] = true;
      return null;
    }
    List<T> ts = new ArrayList<>();
    for (T t : pt.keySet()) if (!t.args.isEmpty()) ts.add(t);
    for (int i = 0; i < ts.size(); i++)
      for (int j = i + 1; j < ts.size(); j++) {
        T a = ts.get(i), b = ts.get(j);
        if (pt.get(a).equals(pt.get(b))) continue;
        List<Lin> diff = clash(a, b, pt);
        if (diff == null) continue;
        Facts same = f.andEq(Lin.of(a).sub(Lin.of(b)));
        for (Lin d : diff) same = same == null ? null : same.andEq(d);
        if (same != null) {
          Facts r = go(same, budget, open, depth + 1);
          if (r != null) return r;
        }
        for (Lin d : diff)
          for (Lin s : new Lin[] {d.add(-1), d.neg().add(-1)}) {
            Facts other = f.andGe(s);
            Facts r = other == null ? null : go(other, budget, open, depth + 1);
            if (r != null) return r;
          }
        return null;
      }
    for (T t : ts) {
      if (agrees(t, pt)) continue;
      boolean[] all = {false};
      for (Facts c : repaired(f, t, pt, all)) {
        Facts r = go(c, budget, open, depth + 1);
        if (r != null) return r;
      }
      if (!all[0]) open[0] = true;
      return null;
    }
    return f;
  }

  // ---- operations of known meaning -----------------------------------------------------------

  private static BigInteger at(Lin l, Map<T, BigInteger> pt) {
    BigInteger v = l.c;
    for (int i = 0; i < l.atoms.length; i++) {
      BigInteger w = pt.get(l.atoms[i]);
      if (w == null) w = value(l.atoms[i], pt);
      if (w == null) w = free(l.atoms[i]);
      v = v.add(l.coef[i].multiply(w));
    }
    return v;
  }

  /** A value for an atom no fact speaks about. */
  private static BigInteger free(T t) {
    BigInteger lo = Lin.of(t).lo(), hi = Lin.of(t).hi();
    if (lo != null && lo.signum() > 0) return lo;
    if (hi != null && hi.signum() < 0) return hi;
    return BigInteger.ZERO;
  }

  private static T digits(T t) {
    if (!t.fn.equals("LEN") || t.args.size() != 1 || !(t.args.get(0) instanceof T)) return null;
    T n = (T) t.args.get(0);
    return n.fn.equals("NAT") && n.args.size() == 2 && n.args.get(0) instanceof Lin && ((Lin) n.args.get(0)).isConst() && n.args.get(1) instanceof Lin ? n : null;
  }

  /** What the operation gives for the values of its arguments; null if its meaning is not known here. */
  private static BigInteger value(T t, Map<T, BigInteger> pt) {
    T n = digits(t);
    if (n != null) {
      BigInteger x = at((Lin) n.args.get(1), pt);
      return x.signum() < 0 ? null : BigInteger.valueOf(x.toString(((Lin) n.args.get(0)).c.intValue()).length());
    }
    int m = Terms.modBits(t.fn);
    if (m > 0 && t.args.size() == 1 && t.args.get(0) instanceof Lin) {
      BigInteger v = at((Lin) t.args.get(0), pt).mod(Terms.pow2(m));
      return t.fn.charAt(0) == 's' && v.testBit(m - 1) ? v.subtract(Terms.pow2(m)) : v;
    }
    if (t.args.size() != 2 || !(t.args.get(0) instanceof Lin) || !(t.args.get(1) instanceof Lin)) return null;
    BigInteger a = at((Lin) t.args.get(0), pt), b = at((Lin) t.args.get(1), pt);
    switch (t.fn) {
      case "div":
        return b.signum() == 0 ? null : a.divide(b);
      case "rem":
        return b.signum() == 0 ? null : a.remainder(b);
      case "and":
      case "and32":
      case "and64":
        return a.and(b);
      case "or":
      case "or32":
      case "or64":
        return a.or(b);
      case "xor32":
      case "xor64":
        return a.xor(b);
      case "mul32":
        return wrap(a.multiply(b), 32);
      case "mul64":
        return wrap(a.multiply(b), 64);
      case "shl32":
        return wrap(a.shiftLeft(b.intValue() & 31), 32);
      case "shl64":
        return wrap(a.shiftLeft(b.intValue() & 63), 64);
      case "shr":
      case "shru":
        return a.shiftRight(b.intValue());
      case "shr32":
        return a.shiftRight(b.intValue() & 31);
      case "shr64":
        return a.shiftRight(b.intValue() & 63);
      case "ushr32":
        return wrap(a.mod(Terms.pow2(32)).shiftRight(b.intValue() & 31), 32);
      case "ushr64":
        return wrap(a.mod(Terms.pow2(64)).shiftRight(b.intValue() & 63), 64);
      default:
        return null;
    }
  }

  private static BigInteger wrap(BigInteger v, int bits) {
    v = v.mod(Terms.pow2(bits));
    return v.testBit(bits - 1) ? v.subtract(Terms.pow2(bits)) : v;
  }

  private static boolean agrees(T t, Map<T, BigInteger> pt) {
    BigInteger v = value(t, pt);
    return v == null || v.equals(pt.get(t));
  }

  /** The facts with the operation's meaning added where it is linear: one period of a wrap, one number of digits, or these arguments. */
  private static List<Facts> repaired(Facts f, T t, Map<T, BigInteger> pt, boolean[] all) {
    List<Facts> r = new ArrayList<>();
    Lin x = Lin.of(t);
    T n = digits(t);
    if (n != null) {
      Lin y = (Lin) n.args.get(1);
      BigInteger radix = ((Lin) n.args.get(0)).c;
      for (BigInteger k : new BigInteger[] {pt.get(t), value(t, pt)}) {
        if (k.signum() <= 0 || k.bitLength() > 12) continue;
        Facts c = f.andEq(x.sub(Lin.of(k)));
        BigInteger p = radix.pow(k.intValue() - 1);
        if (c != null) c = c.andGe(k.equals(BigInteger.ONE) ? y : y.sub(Lin.of(p)));
        if (c != null) c = c.andGe(Lin.of(p.multiply(radix).subtract(BigInteger.ONE)).sub(y));
        if (c != null) r.add(c);
      }
      return r;
    }
    int m = Terms.modBits(t.fn);
    if (m > 0) {
      Lin y = (Lin) t.args.get(0);
      BigInteger p = Terms.pow2(m), q = Facts.floorDiv(at(y, pt), p);
      Set<BigInteger> ks = new LinkedHashSet<>(Arrays.asList(BigInteger.ZERO, BigInteger.ONE, BigInteger.ONE.negate(), q, q.add(BigInteger.ONE)));
      for (BigInteger k : ks) {
        Facts c = f.andEq(y.sub(x).sub(Lin.of(k.multiply(p))));
        if (c != null) r.add(c);
      }
      // a signed wrap of period k takes arguments from k*p - p/2, an unsigned one from k*p
      BigInteger from = t.fn.charAt(0) == 's' ? p.shiftRight(1) : BigInteger.ZERO;
      all[0] = f.andGe(Lin.of(p.negate().subtract(from)).sub(y).add(-1)) == null && f.andGe(y.sub(Lin.of(p.add(p).subtract(from)))) == null;
      return r;
    }
    if (t.args.size() == 2 && t.args.get(1) instanceof Lin && ((Lin) t.args.get(1)).isConst()) {
      Lin y = (Lin) t.args.get(0);
      BigInteger b = ((Lin) t.args.get(1)).c;
      boolean and = t.fn.startsWith("and") && b.signum() > 0 && b.and(b.add(BigInteger.ONE)).signum() == 0;
      boolean rem = t.fn.equals("rem") && b.signum() > 0, div = t.fn.equals("div") && b.signum() > 0;
      if (and || rem) {
        BigInteger p = and ? b.add(BigInteger.ONE) : b, q = Facts.floorDiv(at(y, pt), p);
        Set<BigInteger> ks = new LinkedHashSet<>(Arrays.asList(BigInteger.ZERO, BigInteger.ONE, q, q.add(BigInteger.ONE)));
        for (BigInteger k : ks) {
          if (rem && k.signum() < 0) continue;
          Facts c = f.andEq(y.sub(x).sub(Lin.of(k.multiply(p))));
          if (c != null) c = c.andGe(x);
          if (c != null) c = c.andGe(Lin.of(p).sub(x).add(-1));
          if (c != null) r.add(c);
        }
      } else if (div) {
        Facts c = f.andGe(y);
        if (c != null) c = c.andGe(y.sub(x.mul(b)));
        if (c != null) c = c.andGe(x.mul(b).add(Lin.of(b)).add(-1).sub(y));
        if (c != null) r.add(c);
      }
    }
    Facts c = f;
    for (Val a : t.args) {
      Lin y = (Lin) a;
      if (c != null) c = c.andEq(y.sub(Lin.of(at(y, pt))));
    }
    if (c != null) c = c.andEq(x.sub(Lin.of(value(t, pt))));
    if (c != null) r.add(c);
    return r;
  }

  /** Differences of the arguments, all zero at the point; null if the terms are different functions or arguments. */
  private static List<Lin> clash(T a, T b, Map<T, BigInteger> pt) {
    if (!a.fn.equals(b.fn) || a.args.size() != b.args.size() || !a.desc.equals(b.desc)) return null;
    List<Lin> r = new ArrayList<>();
    for (int i = 0; i < a.args.size(); i++) {
      Val x = a.args.get(i), y = b.args.get(i);
      if (x.equals(y)) continue;
      if (x instanceof T && y instanceof T && !((T) x).args.isEmpty()) {
        List<Lin> in = clash((T) x, (T) y, pt);
        if (in == null) return null;
        r.addAll(in);
        continue;
      }
      if (!(x instanceof Lin) || !(y instanceof Lin)) return null;
      Lin d = ((Lin) x).sub((Lin) y);
      BigInteger v = d.c;
      for (int k = 0; k < d.atoms.length; k++) {
        BigInteger w = pt.get(d.atoms[k]);
        if (w == null) w = value(d.atoms[k], pt);
        if (w == null) return null;
        v = v.add(d.coef[k].multiply(w));
      }
      if (v.signum() != 0) return null;
      r.add(d);
    }
    return r;
  }
}
