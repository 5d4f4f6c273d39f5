package fpv;

import java.math.BigInteger;
import java.util.*;

/**
 * Floating values by class: -infinity, negative, -0, +0, positive, +infinity, NaN (numbered -3, -2, -1, 1, 2, 3, 4).
 * Every test of a value against a special constant is a set of classes.
 */
final class Dbl {
  static final int[] CLASSES = {-3, -2, -1, 1, 2, 3, 4};
  static final Set<Integer> NAN = of(4), INF = of(-3, 3), FINITE = of(-2, -1, 1, 2), ZERO = of(-1, 1), SIGN = of(-3, -2, -1);

  static Set<Integer> of(Integer... c) {
    return new TreeSet<>(Arrays.asList(c));
  }

  /** The value without sign changes and exact widening. */
  static T base(Val v) {
    T t = (T) v;
    while (t.args.size() == 1 && t.args.get(0) instanceof T && (op(t) != 0 || t.fn.equals("f2d"))) t = (T) t.args.get(0);
    return t;
  }

  private static char op(T t) {
    switch (t.fn) {
      case "dneg":
      case "fneg":
        return '-';
      case "dabs":
      case "fabs":
        return '+';
      default:
        return 0;
    }
  }

  /** Class of v when its base has class k. */
  static int classOf(T v, int k) {
    if (v.args.size() != 1 || !(v.args.get(0) instanceof T) || op(v) == 0 && !v.fn.equals("f2d")) return k;
    int i = classOf((T) v.args.get(0), k);
    if (i == 4) return 4;
    return op(v) == '-' ? -i : op(v) == '+' ? Math.abs(i) : i;
  }

  static Lin atom(T base) {
    return Lin.of(T.of("dclass", "#", BigInteger.valueOf(-3), BigInteger.valueOf(4), base));
  }

  /** Facts under which v has one of the classes, as disjoint cases. */
  static List<Facts> in(Facts f, Val v, Set<Integer> classes) {
    List<Facts> r = new ArrayList<>();
    if (v instanceof DblV) {
      if (classes.contains(constant(((DblV) v).d))) r.add(f);
      return r;
    }
    T b = base(v);
    Set<Integer> on = new TreeSet<>();
    for (int k : CLASSES) if (classes.contains(classOf((T) v, k))) on.add(k);
    if (b.fn.startsWith("n2") && b.args.get(0) instanceof Lin) {
      Lin l = (Lin) b.args.get(0);
      if (on.contains(-2)) r.add(f.andGe(l.neg().add(-1)));
      if (on.contains(1)) r.add(f.andEq(l));
      if (on.contains(2)) r.add(f.andGe(l.add(-1)));
    } else {
      Lin k = atom(b);
      Facts g = f.andNe(k);
      if (g == null) return r;
      for (int i = 0; i < CLASSES.length; i++) {
        if (!on.contains(CLASSES[i])) continue;
        int j = i;
        while (j + 1 < CLASSES.length && on.contains(CLASSES[j + 1])) j++;
        Facts h = g.andGe(k.add(-CLASSES[i]));
        r.add(h == null ? null : h.andGe(Lin.of(CLASSES[j]).sub(k)));
        i = j;
      }
    }
    r.removeIf(Objects::isNull);
    return r;
  }

  static int constant(double d) {
    if (d != d) return 4;
    int k = Double.isInfinite(d) ? 3 : d == 0 ? 1 : 2;
    return Double.doubleToRawLongBits(d) < 0 ? -k : k;
  }

  static Set<Integer> not(Set<Integer> s) {
    Set<Integer> r = new TreeSet<>();
    for (int k : CLASSES) if (!s.contains(k)) r.add(k);
    return r;
  }

  /** The classes of x for which (x rel c) holds, or null when that depends on more than the class. */
  static Set<Integer> relation(String rel, double c) {
    int kc = constant(c);
    if (kc == 4) return of();
    if (Math.abs(kc) == 2) return null;
    int pc = Math.abs(kc) == 1 ? 0 : kc;
    Set<Integer> r = new TreeSet<>();
    for (int k : CLASSES) {
      if (k == 4) continue;
      int p = Math.abs(k) == 1 ? 0 : k;
      boolean b = rel.equals("deq") ? p == pc : rel.equals("dlt") ? p < pc : rel.equals("dle") ? p <= pc : rel.equals("dgt") ? p > pc : p >= pc;
      if (b) r.add(k);
    }
    return r;
  }

  /** States in which v is in the classes (value yes) or is not (value no). */
  static List<Out> test(State st, Val v, Set<Integer> classes, Val yes, Val no) {
    List<Out> r = new ArrayList<>();
    for (Facts f : in(st.facts, v, classes)) r.add(new Out(with(st, f), yes, false));
    for (Facts f : in(st.facts, v, not(classes))) r.add(new Out(with(st, f), no, false));
    return r;
  }

  static State with(State st, Facts f) {
    State s = st.fork();
    s.facts = f;
    return s;
  }

  static Val abs(Val v) {
    if (v instanceof DblV) return new DblV(Math.abs(((DblV) v).d), false);
    T t = (T) v;
    while (t.args.size() == 1 && t.args.get(0) instanceof T && op(t) != 0) t = (T) t.args.get(0);
    if (t.fn.equals("f2d") && t.args.get(0) instanceof T) {
      T u = (T) t.args.get(0);
      while (u.args.size() == 1 && u.args.get(0) instanceof T && op(u) != 0) u = (T) u.args.get(0);
      t = (T) Interp.f2d(u);
    }
    return T.of(t.desc.equals("F") ? "fabs" : "dabs", t.desc, t);
  }

  /** The same value written as its magnitude with a sign, when the facts settle the sign. */
  static Val normal(Facts f, Val v) {
    if (!(v instanceof T)) return v;
    if (in(f, v, SIGN).isEmpty()) return abs(v);
    if (in(f, v, not(SIGN)).isEmpty()) return T.of("dneg", "D", abs(v));
    return v;
  }

  private Dbl() {}
}
