package fpv;

import java.math.BigInteger;
import java.util.*;

/**
 * Integer polynomials over variables and floors of other polynomials by powers of two. Wrapping
 * arithmetic, masks and shifts by constants are expressed exactly, with ranges deciding where a
 * wrap is none, so that two ways of writing the same computation get the same normal form.
 */
final class Poly {
  /** A variable, or floor(of / 2^shift). */
  static final class Atom implements Comparable<Atom> {
    final String key;
    final Poly of;
    final int shift;
    final BigInteger lo, hi;

    Atom(String key, Poly of, int shift, BigInteger lo, BigInteger hi) {
      this.key = key;
      this.of = of;
      this.shift = shift;
      this.lo = lo;
      this.hi = hi;
    }

    @Override
    public int compareTo(Atom o) {
      return key.compareTo(o.key);
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof Atom && ((Atom) o).key.equals(key);
    }

    @Override
    public int hashCode() {
      return key.hashCode();
    }

    @Override
    public String toString() {
      return key;
    }
  }

  private final TreeMap<String, BigInteger> coef = new TreeMap<>();
  private final Map<String, List<Atom>> mono = new HashMap<>();

  static Poly of(BigInteger c) {
    Poly p = new Poly();
    p.put(Collections.emptyList(), c);
    return p;
  }

  static Poly of(Atom a) {
    Poly p = new Poly();
    p.put(Collections.singletonList(a), BigInteger.ONE);
    return p;
  }

  private void put(List<Atom> m, BigInteger c) {
    if (c.signum() == 0) return;
    String k = m.toString();
    BigInteger s = coef.getOrDefault(k, BigInteger.ZERO).add(c);
    if (s.signum() == 0) {
      coef.remove(k);
      mono.remove(k);
    } else {
      coef.put(k, s);
      mono.put(k, m);
    }
  }

  Poly add(Poly o) {
    return plus(o, BigInteger.ONE);
  }

  Poly sub(Poly o) {
    return plus(o, BigInteger.ONE.negate());
  }

  private Poly plus(Poly o, BigInteger f) {
    Poly r = new Poly();
    for (String k : coef.keySet()) r.put(mono.get(k), coef.get(k));
    for (String k : o.coef.keySet()) r.put(o.mono.get(k), o.coef.get(k).multiply(f));
    return r;
  }

  Poly mul(BigInteger f) {
    return new Poly().plus(this, f);
  }

  Poly mul(Poly o) {
    if (coef.size() * o.coef.size() > 400) throw new Undecided("polynomial too large");
    Poly r = new Poly();
    for (String k : coef.keySet())
      for (String l : o.coef.keySet()) {
        List<Atom> m = new ArrayList<>(mono.get(k));
        m.addAll(o.mono.get(l));
        Collections.sort(m);
        r.put(m, coef.get(k).multiply(o.coef.get(l)));
      }
    return r;
  }

  boolean isZero() {
    return coef.isEmpty();
  }

  BigInteger[] range() {
    BigInteger lo = BigInteger.ZERO, hi = BigInteger.ZERO;
    for (String k : coef.keySet()) {
      BigInteger l = BigInteger.ONE, h = BigInteger.ONE;
      for (Atom a : mono.get(k)) {
        if (a.lo == null || a.hi == null) return null;
        BigInteger[] c = {l.multiply(a.lo), l.multiply(a.hi), h.multiply(a.lo), h.multiply(a.hi)};
        Arrays.sort(c);
        l = c[0];
        h = c[3];
      }
      BigInteger f = coef.get(k);
      lo = lo.add(f.signum() > 0 ? l.multiply(f) : h.multiply(f));
      hi = hi.add(f.signum() > 0 ? h.multiply(f) : l.multiply(f));
    }
    return new BigInteger[] {lo, hi};
  }

  boolean within(BigInteger lo, BigInteger hi) {
    BigInteger[] r = range();
    return r != null && r[0].compareTo(lo) >= 0 && r[1].compareTo(hi) <= 0;
  }

  /** floor(this / 2^k). */
  Poly floor(int k) {
    if (k == 0) return this;
    BigInteger p = BigInteger.ONE.shiftLeft(k);
    Poly whole = new Poly(), rest = new Poly();
    for (String m : coef.keySet()) {
      BigInteger[] q = coef.get(m).divideAndRemainder(p);
      BigInteger quot = q[0], rem = q[1];
      if (rem.signum() < 0) {
        // keep small negative coefficients as they are: -1 stays -1
        if (rem.negate().compareTo(p.shiftRight(1)) > 0) {
          rem = rem.add(p);
          quot = quot.subtract(BigInteger.ONE);
        }
      } else if (rem.compareTo(p.shiftRight(1)) > 0 && !mono.get(m).isEmpty()) {
        rem = rem.subtract(p);
        quot = quot.add(BigInteger.ONE);
      }
      whole.put(mono.get(m), quot);
      rest.put(mono.get(m), rem);
    }
    if (rest.isZero() || rest.within(BigInteger.ZERO, p.subtract(BigInteger.ONE))) return whole;
    BigInteger[] range = rest.range();
    if (range != null && range[0].shiftRight(k).equals(range[1].shiftRight(k))) return whole.add(of(range[0].shiftRight(k)));
    // floor of a sum with one inner floor is one floor
    Atom inner = null;
    int n = 0;
    for (String m : rest.coef.keySet()) {
      List<Atom> l = rest.mono.get(m);
      if (l.size() == 1 && l.get(0).of != null && rest.coef.get(m).equals(BigInteger.ONE)) {
        inner = l.get(0);
        n++;
      }
    }
    if (n == 1) return whole.add(rest.sub(of(inner)).mul(BigInteger.ONE.shiftLeft(inner.shift)).add(inner.of).floor(k + inner.shift));
    return whole.add(of(new Atom("floor(" + rest + ">>" + k + ")", rest, k, range == null ? null : range[0].shiftRight(k), range == null ? null : range[1].shiftRight(k))));
  }

  private static boolean fits(BigInteger[] r, BigInteger lo, BigInteger hi) {
    return r != null && r[0].compareTo(lo) >= 0 && r[1].compareTo(hi) <= 0;
  }

  Poly unsigned(int bits, BigInteger[] known) {
    return fits(known, BigInteger.ZERO, BigInteger.ONE.shiftLeft(bits).subtract(BigInteger.ONE)) ? this : unsigned(bits);
  }

  Poly unsigned(int bits) {
    return sub(floor(bits).mul(BigInteger.ONE.shiftLeft(bits)));
  }

  Poly signed(int bits) {
    return signed(bits, null);
  }

  /** With a range known from elsewhere. */
  Poly signed(int bits, BigInteger[] known) {
    BigInteger half = BigInteger.ONE.shiftLeft(bits - 1);
    if (fits(known, half.negate(), half.subtract(BigInteger.ONE)) || within(half.negate(), half.subtract(BigInteger.ONE))) return this;
    return sub(add(of(half)).floor(bits).mul(BigInteger.ONE.shiftLeft(bits)));
  }

  /** The value with the variables at the given values. */
  BigInteger at(Map<String, BigInteger> env) {
    BigInteger s = BigInteger.ZERO;
    for (String k : coef.keySet()) {
      BigInteger m = coef.get(k);
      for (Atom a : mono.get(k)) m = m.multiply(a.of != null ? a.of.at(env).shiftRight(a.shift) : env.get(a.key));
      s = s.add(m);
    }
    return s;
  }

  void vars(Map<String, Atom> into) {
    for (List<Atom> m : mono.values())
      for (Atom a : m) {
        if (a.of != null) a.of.vars(into);
        else into.put(a.key, a);
      }
  }

  @Override
  public boolean equals(Object o) {
    return o instanceof Poly && ((Poly) o).coef.equals(coef);
  }

  @Override
  public int hashCode() {
    return coef.hashCode();
  }

  @Override
  public String toString() {
    return coef.toString();
  }

  // ---- from terms ----------------------------------------------------------------------------

  /** Reads terms of the interpreter; 64-bit variables are split into halves. */
  static final class Reader {
    final Facts facts;
    final Set<T> split = new HashSet<>();
    private final Map<T, Poly> memo = new HashMap<>();

    Reader(Facts facts) {
      this.facts = facts;
    }

    Poly read(Lin l) {
      Poly r = of(l.c);
      for (int i = 0; i < l.atoms.length; i++) r = r.add(read(l.atoms[i]).mul(l.coef[i]));
      return r;
    }

    Poly read(T t) {
      Poly p = memo.get(t);
      if (p == null) memo.put(t, p = read0(t));
      return p;
    }

    private Poly arg(T t, int i) {
      return read((Lin) t.args.get(i));
    }

    private static BigInteger[] times(BigInteger[] x, BigInteger[] y) {
      if (x == null || y == null) return null;
      BigInteger[] c = {x[0].multiply(y[0]), x[0].multiply(y[1]), x[1].multiply(y[0]), x[1].multiply(y[1])};
      Arrays.sort(c);
      return new BigInteger[] {c[0], c[3]};
    }

    private BigInteger[] product(T t) {
      return times(range((Lin) t.args.get(0)), range((Lin) t.args.get(1)));
    }

    BigInteger[] range(Lin l) {
      BigInteger[] r = {l.c, l.c};
      for (int i = 0; i < l.atoms.length; i++) {
        BigInteger[] x = times(range(l.atoms[i]), new BigInteger[] {l.coef[i], l.coef[i]});
        if (x == null) return null;
        r = new BigInteger[] {r[0].add(x[0]), r[1].add(x[1])};
      }
      return r;
    }

    /** What the operators say about the range of a term. */
    BigInteger[] range(T t) {
      BigInteger[] own = bounds(t), in = null;
      int bits = 64;
      switch (t.fn) {
        case "s32":
        case "u32":
          bits = 32;
          in = range((Lin) t.args.get(0));
          break;
        case "s64":
        case "u64":
          in = range((Lin) t.args.get(0));
          break;
        case "mul32":
          bits = 32;
          in = product(t);
          break;
        case "mul64":
          in = product(t);
          break;
        case "shr":
        case "shru":
          in = range((Lin) t.args.get(0));
          if (in != null) in = new BigInteger[] {in[0].shiftRight(shift(t)), in[1].shiftRight(shift(t))};
          break;
        case "multiplyHigh":
          in = product(t);
          if (in != null) in = new BigInteger[] {in[0].shiftRight(64), in[1].shiftRight(64)};
          break;
        default:
      }
      if (own == null) return in;
      return in != null && fits(in, own[0], own[1]) ? in : own;
    }

    private BigInteger[] bounds(T t) {
      BigInteger lo = facts.lowerBound(Lin.of(t)), hi = facts.upperBound(Lin.of(t));
      if (lo == null) lo = t.lo;
      if (hi == null) hi = t.hi;
      return lo == null || hi == null ? null : new BigInteger[] {lo, hi};
    }

    private int shift(T t) {
      Lin k = (Lin) t.args.get(1);
      if (!k.isConst()) throw new Undecided("shift by " + k);
      return k.c.intValue();
    }

    private Poly read0(T t) {
      switch (t.fn) {
        case "s64":
          return arg(t, 0).signed(64, range((Lin) t.args.get(0)));
        case "s32":
          return arg(t, 0).signed(32, range((Lin) t.args.get(0)));
        case "s16":
          return arg(t, 0).signed(16, range((Lin) t.args.get(0)));
        case "s8":
          return arg(t, 0).signed(8, range((Lin) t.args.get(0)));
        case "u64":
          return arg(t, 0).unsigned(64, range((Lin) t.args.get(0)));
        case "u32":
          return arg(t, 0).unsigned(32, range((Lin) t.args.get(0)));
        case "u16":
          return arg(t, 0).unsigned(16, range((Lin) t.args.get(0)));
        case "u8":
          return arg(t, 0).unsigned(8, range((Lin) t.args.get(0)));
        case "mul64":
          return arg(t, 0).mul(arg(t, 1)).signed(64, product(t));
        case "mul32":
          return arg(t, 0).mul(arg(t, 1)).signed(32, product(t));
        case "shr":
        case "shru":
          return arg(t, 0).floor(shift(t));
        case "and":
          {
            BigInteger m = ((Lin) t.args.get(1)).isConst() ? ((Lin) t.args.get(1)).c : null;
            if (m != null && m.signum() > 0 && m.add(BigInteger.ONE).bitCount() == 1) return arg(t, 0).unsigned(m.bitLength());
            break;
          }
        case "multiplyHigh":
          return arg(t, 0).mul(arg(t, 1)).floor(64);
        default:
      }
      BigInteger lo = facts.lowerBound(Lin.of(t)), hi = facts.upperBound(Lin.of(t));
      if (lo == null) lo = t.lo;
      if (hi == null) hi = t.hi;
      if (!split.contains(t)) return of(new Atom(t.toString(), null, 0, lo, hi));
      BigInteger m = BigInteger.ONE.shiftLeft(32);
      Atom high = new Atom(t + ".high", null, 0, lo.shiftRight(32), hi.shiftRight(32)), low = new Atom(t + ".low", null, 0, BigInteger.ZERO, m.subtract(BigInteger.ONE));
      return of(high).mul(m).add(of(low));
    }
  }

  private Poly() {}
}
