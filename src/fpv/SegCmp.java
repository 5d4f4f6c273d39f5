package fpv;

import java.math.BigInteger;
import java.util.*;

/** Comparison of two texts under numeric facts. */
final class SegCmp {
  static final int EQ = 0, NEQ = 1, UNKNOWN = 2;

  static final class R {
    final int verdict;
    final String why;
    final Facts where;

    R(int v, String why, Facts f) {
      verdict = v;
      this.why = why;
      where = f;
    }
  }

  private static final R SAME = new R(EQ, "", null);

  static R compare(List<Seg> a, List<Seg> b, Facts f) {
    if (a.equals(b)) return SAME;
    f = congruence(a, b, f);
    if (f == null) return SAME;
    return go(simplify(a, f), simplify(b, f), f, 0);
  }

  // ---- congruence ----------------------------------------------------------------------------

  private static void collect(Val v, Set<T> out) {
    if (v instanceof Lin) for (T t : ((Lin) v).atoms) collect(t, out);
    else if (v instanceof T) {
      if (out.add((T) v)) for (Val x : ((T) v).args) collect(x, out);
    } else if (v instanceof TextV) for (Seg s : ((TextV) v).segs) collect(s, out);
    else if (v instanceof BigV) collect(((BigV) v).v, out);
    else if (v instanceof BoxV) collect(((BoxV) v).v, out);
  }

  private static void collect(Seg s, Set<T> out) {
    if (s.k == Seg.K.RUN) {
      collect(s.ch, out);
      collect(s.n, out);
    } else if (s.k == Seg.K.SUB) {
      collect(s.base, out);
      collect(s.from, out);
      collect(s.to, out);
    }
  }

  /** Adds equalities between numeric atoms that are the same function of equal arguments. */
  static Facts congruence(List<Seg> a, List<Seg> b, Facts f) {
    Set<T> ts = new LinkedHashSet<>();
    for (Seg s : a) collect(s, ts);
    for (Seg s : b) collect(s, ts);
    for (Lin l : f.eq) collect(l, ts);
    for (Lin l : f.ge) collect(l, ts);
    return congruence(ts, f);
  }

  static Facts congruence(Val a, Val b, Facts f) {
    Set<T> ts = new LinkedHashSet<>();
    collect(a, ts);
    collect(b, ts);
    for (Lin l : f.eq) collect(l, ts);
    for (Lin l : f.ge) collect(l, ts);
    return congruence(ts, f);
  }

  private static Facts congruence(Set<T> ts, Facts f) {
    Map<String, List<T>> by = new LinkedHashMap<>();
    for (T t : ts) if (T.numeric(t.desc) && !t.args.isEmpty()) by.computeIfAbsent(t.fn + "/" + t.args.size(), k -> new ArrayList<>()).add(t);
    for (List<T> l : by.values())
      for (int i = 0; i < l.size() && l.size() < 12; i++)
        for (int j = i + 1; j < l.size(); j++)
          if (sameArgs(l.get(i), l.get(j), f)) {
            f = f.andEq(Lin.of(l.get(i)).sub(Lin.of(l.get(j))));
            if (f == null) return null;
          }
    // digit texts of known magnitude have known length
    for (T t : ts)
      if (t.fn.equals("LEN") && t.args.get(0) instanceof T && ((T) t.args.get(0)).fn.equals("NAT")) {
        T nat = (T) t.args.get(0);
        Lin x = (Lin) nat.args.get(1);
        BigInteger radix = ((Lin) nat.args.get(0)).c;
        BigInteger c = f.valueOf(x);
        if (c != null && c.signum() >= 0) {
          f = f.andEq(Lin.of(t).add(-c.toString(radix.intValue()).length()));
          if (f == null) return null;
          continue;
        }
        BigInteger p = radix;
        for (int n = 1; n <= 3; n++, p = p.multiply(radix)) {
          if (f.entailsGe(Lin.of(p).sub(x).add(-1))) {
            f = f.andGe(Lin.of(n).sub(Lin.of(t)));
            if (f == null) return null;
          } else if (f.entailsGe(x.sub(Lin.of(p)))) {
            f = f.andGe(Lin.of(t).add(-n - 1));
            if (f == null) return null;
          }
        }
      }
    return f;
  }

  static boolean sameArgs(T a, T b, Facts f) {
    if (!a.fn.equals(b.fn) || a.args.size() != b.args.size() || !a.desc.equals(b.desc)) return false;
    for (int i = 0; i < a.args.size(); i++) if (!sameVal(a.args.get(i), b.args.get(i), f)) return false;
    return true;
  }

  static boolean sameVal(Val a, Val b, Facts f) {
    if (a.equals(b)) return true;
    if (a instanceof Lin && b instanceof Lin) {
      Lin d = ((Lin) a).sub((Lin) b);
      if (d.isConst()) return d.c.signum() == 0;
      if (f.entailsEq(d)) return true;
      // linear forms that differ in congruent atoms
      if (d.atoms.length == 2 && d.c.signum() == 0 && d.coef[0].add(d.coef[1]).signum() == 0) return sameArgs(d.atoms[0], d.atoms[1], f);
      return false;
    }
    if (a instanceof T && b instanceof T) return !((T) a).args.isEmpty() && sameArgs((T) a, (T) b, f);
    if (a instanceof TextV && b instanceof TextV) {
      List<Seg> x = simplify(((TextV) a).segs, f), y = simplify(((TextV) b).segs, f);
      if (x.size() != y.size()) return false;
      for (int i = 0; i < x.size(); i++) if (!sameSeg(x.get(i), y.get(i), f)) return false;
      return true;
    }
    if (a instanceof BoxV && b instanceof BoxV) return ((BoxV) a).cls.equals(((BoxV) b).cls) && sameVal(((BoxV) a).v, ((BoxV) b).v, f);
    if (a instanceof BigV && b instanceof BigV) return sameVal(((BigV) a).v, ((BigV) b).v, f);
    return false;
  }

  private static boolean sameSeg(Seg a, Seg b, Facts f) {
    if (a.k != b.k || a.upper != b.upper) return false;
    switch (a.k) {
      case LIT:
        return a.lit.equals(b.lit);
      case RUN:
        return sameVal(a.ch, b.ch, f) && sameVal(a.n, b.n, f);
      default:
        return sameVal(a.base, b.base, f) && sameVal(a.from, b.from, f) && sameVal(a.to, b.to, f);
    }
  }

  // ---- alignment -----------------------------------------------------------------------------

  static List<Seg> simplify(List<Seg> l, Facts f) {
    List<Seg> r = new ArrayList<>();
    for (Seg s : l) {
      if (s.k == Seg.K.RUN) {
        BigInteger n = f.valueOf(s.n);
        if (n == null && f.entailsEq(s.n)) n = BigInteger.ZERO;
        Lin ch = s.ch;
        BigInteger c = ch.isConst() ? ch.c : f.valueOf(ch);
        if (c != null) ch = Lin.of(c);
        if (n != null) {
          if (n.signum() <= 0) continue;
          Seg.push(r, Seg.run(ch, Lin.of(n), s.upper));
        } else Seg.push(r, Seg.run(ch, s.n, s.upper));
      } else if (s.k == Seg.K.SUB) {
        if (f.entailsEq(s.len())) continue;
        if (s.base.fn.equals("NAT")) {
          Lin x = (Lin) s.base.args.get(1);
          BigInteger c = f.valueOf(x);
          if (c == null && f.entailsEq(x)) c = BigInteger.ZERO;
          if (c != null && s.from.isConst(0) && s.to.equals(Terms.len(s.base))) {
            String t = c.toString(((Lin) s.base.args.get(0)).c.intValue());
            List<Seg> lit = Seg.lit(t);
            for (Seg x2 : s.upper ? Seg.upper(lit) : lit) Seg.push(r, x2);
            continue;
          }
        }
        // a slice of length one whose character is known
        if (f.entailsEq(s.len().add(-1))) {
          Lin c = Terms.charAt(s.base, f.reduce(s.from));
          BigInteger v = f.valueOf(c);
          if (v == null) v = f.valueOf(Terms.charAt(s.base, s.from));
          if (v != null) {
            Seg.push(r, Seg.run(Lin.of(v), Lin.ONE, s.upper));
            continue;
          }
        }
        Seg.push(r, s);
      } else Seg.push(r, s);
    }
    return r;
  }

  private static R go(List<Seg> a, List<Seg> b, Facts f, int depth) {
    int i = 0, j = 0;
    List<Seg> x = new ArrayList<>(a), y = new ArrayList<>(b);
    while (true) {
      if (x.isEmpty() && y.isEmpty()) return SAME;
      if (x.isEmpty() || y.isEmpty()) {
        List<Seg> rest = x.isEmpty() ? y : x;
        Lin len = Seg.len(rest);
        if (f.entailsEq(len)) return SAME;
        boolean op = false;
        for (Seg s : rest) op |= s.opaque();
        Facts g = f.andGe(len.add(-1));
        if (g == null) return SAME;
        return new R(op ? UNKNOWN : NEQ, (x.isEmpty() ? "missing " : "extra ") + Seg.show(rest), g);
      }
      Seg p = x.get(0), q = y.get(0);
      if (sameSeg(p, q, f)) {
        x.remove(0);
        y.remove(0);
        continue;
      }
      Lin lp = p.len(), lq = q.len();
      // drop empty heads, or distinguish
      Lin d = lp.sub(lq);
      boolean le = f.entailsGe(d.neg()), ge = f.entailsGe(d);
      if (!le && !ge) {
        if (depth > 10) return new R(UNKNOWN, "too many cases", f);
        Facts f1 = f.andGe(d.neg()), f2 = f.andGe(d.add(-1));
        R worst = SAME;
        for (Facts g : new Facts[] {f1, f2}) {
          if (g == null) continue;
          R r = go(simplify(x, g), simplify(y, g), g, depth + 1);
          if (r.verdict == NEQ) return r;
          if (r.verdict == UNKNOWN) worst = r;
        }
        return worst;
      }
      Lin n = le ? lp : lq;
      // both heads have at least n characters; compare the first n
      Seg[] ps = head(p, n, f, le), qs = head(q, n, f, ge);
      if (ps == null || qs == null) {
        // a literal must be cut at an unknown place
        if (depth > 10) return new R(UNKNOWN, "too many cases", f);
        Seg lit = ps == null ? p : q;
        R worst = SAME;
        for (int k = 0; k <= lit.lit.length(); k++) {
          Facts g = f.andEq(n.add(-k));
          if (g == null) continue;
          R r = go(simplify(x, g), simplify(y, g), g, depth + 1);
          if (r.verdict == NEQ) return r;
          if (r.verdict == UNKNOWN) worst = r;
        }
        return worst;
      }
      R r = piece(ps[0], qs[0], n, f);
      if (r.verdict != EQ) return r;
      x.remove(0);
      if (ps[1] != null) x.add(0, ps[1]);
      y.remove(0);
      if (qs[1] != null) y.add(0, qs[1]);
    }
  }

  /** Splits a segment after n characters; second part null when nothing remains. */
  private static Seg[] head(Seg s, Lin n, Facts f, boolean whole) {
    if (whole && f.entailsEq(s.len().sub(n))) return new Seg[] {s, null};
    switch (s.k) {
      case LIT:
        {
          BigInteger v = f.valueOf(n);
          if (v == null) return null;
          int k = v.intValue();
          return new Seg[] {Seg.mkLit(s.lit.substring(0, k)), k == s.lit.length() ? null : Seg.mkLit(s.lit.substring(k))};
        }
      case RUN:
        return new Seg[] {Seg.run(s.ch, n, s.upper), Seg.run(s.ch, s.n.sub(n), s.upper)};
      default:
        return new Seg[] {Seg.sub(s.base, s.from, s.from.add(n), s.upper), Seg.sub(s.base, s.from.add(n), s.to, s.upper)};
    }
  }

  /** The cases in which two values differ: applications of one function differ only where an argument does. */
  static void apart(Val a, Val b, Facts g, List<Facts> out) {
    if (a.equals(b)) return;
    if (a instanceof Lin && b instanceof Lin) {
      Facts d = g.andNe(((Lin) a).sub((Lin) b));
      if (d != null) out.add(d);
    } else if (a instanceof T && b instanceof T && ((T) a).fn.equals(((T) b).fn) && !((T) a).args.isEmpty() && ((T) a).args.size() == ((T) b).args.size())
      for (int i = 0; i < ((T) a).args.size(); i++) apart(((T) a).args.get(i), ((T) b).args.get(i), g, out);
    else out.add(g);
  }

  /** Compares two pieces of the same length n. */
  private static R piece(Seg a, Seg b, Lin n, Facts f) {
    if (sameSeg(a, b, f)) return SAME;
    Facts g = f.andGe(n.add(-1));
    if (g == null) return SAME; // empty
    boolean op = a.opaque() || b.opaque();
    String why = a + " instead of " + b;
    if (a.k == Seg.K.SUB && b.k != Seg.K.SUB) {
      Seg t = a;
      a = b;
      b = t;
    }
    if (a.k == Seg.K.LIT && b.k == Seg.K.LIT) return a.lit.equals(b.lit) ? SAME : new R(NEQ, why, g);
    if (a.k == Seg.K.RUN && b.k == Seg.K.LIT || a.k == Seg.K.LIT && b.k == Seg.K.RUN) {
      Seg r = a.k == Seg.K.RUN ? a : b, l = a.k == Seg.K.RUN ? b : a;
      if (r.upper) return new R(UNKNOWN, why, g);
      for (int i = 0; i < l.lit.length(); i++) {
        Lin d = r.ch.add(-l.lit.charAt(i));
        if (f.entailsEq(d)) continue;
        return new R(op ? UNKNOWN : NEQ, why, g);
      }
      return SAME;
    }
    if (a.k == Seg.K.RUN && b.k == Seg.K.RUN) {
      if (a.upper == b.upper && f.entailsEq(a.ch.sub(b.ch))) return SAME;
      if (a.upper != b.upper) return new R(UNKNOWN, why, g);
      g = g.andNe(a.ch.sub(b.ch));
      if (g == null) return SAME;
      return new R(op ? UNKNOWN : NEQ, why, g);
    }
    // SUB against something else
    if (a.k == Seg.K.SUB) {
      if (sameVal(a.base, b.base, f) && f.entailsEq(a.from.sub(b.from)) && a.upper != b.upper) {
        // only a lower-case letter shows the difference
        Lin c = Terms.charAt(a.base, a.from);
        Facts low = g.andGe(c.add(-97));
        low = low == null ? null : low.andGe(Lin.of(122).sub(c));
        if (low == null) return f.entailsEq(n.add(-1)) ? SAME : new R(UNKNOWN, why, g);
        return new R(op ? UNKNOWN : NEQ, why, low);
      }
      if (f.entailsEq(n.add(-1)) && !a.upper && !b.upper && f.entailsEq(Terms.charAt(a.base, a.from).sub(Terms.charAt(b.base, b.from)))) return SAME;
      if (sameVal(a.base, b.base, f) && a.upper == b.upper) {
        g = g.andNe(a.from.sub(b.from));
        if (g == null) return SAME;
        if (!op && Cong.find(g).impossible) return SAME;
      } else if (!op && a.base.fn.equals(b.base.fn)) {
        // one function: its arguments must differ
        List<Facts> cases = new ArrayList<>();
        apart(a.base, b.base, g, cases);
        boolean open = false;
        for (Facts c : cases) {
          Cong k = Cong.find(c);
          if (k.where != null) return new R(NEQ, why, c);
          open |= !k.impossible;
        }
        if (open || !f.entailsEq(a.from.sub(b.from)) || a.upper != b.upper) return new R(UNKNOWN, why, g);
        return SAME;
      }
      return new R(op ? UNKNOWN : NEQ, why, g);
    }
    // LIT or RUN against a slice: per-character knowledge
    if (f.entailsEq(n.add(-1)) && b.upper && !a.upper) {
      Lin c = Terms.charAt(b.base, b.from);
      Lin want = a.k == Seg.K.LIT ? Lin.of(a.lit.charAt(0)) : a.ch;
      boolean lower = f.entailsGe(c.add(-97)) && f.entailsGe(Lin.of(122).sub(c));
      boolean other = f.entailsGe(Lin.of(96).sub(c)) || f.entailsGe(c.add(-123));
      if (lower && f.entailsEq(want.sub(c).add(32))) return SAME;
      if (other && f.entailsEq(want.sub(c))) return SAME;
      if (!lower && !other) return new R(UNKNOWN, why, g);
    }
    if (f.entailsEq(n.add(-1)) && !b.upper) {
      Lin c = Terms.charAt(b.base, b.from);
      Lin want = a.k == Seg.K.LIT ? Lin.of(a.lit.charAt(0)) : a.ch;
      if (!a.upper && f.entailsEq(c.sub(want))) return SAME;
    }
    if (!a.upper && !b.upper && !op && (a.k == Seg.K.RUN || a.lit.length() == 1)) {
      // the first character differs, or a later one does
      Lin want = a.k == Seg.K.LIT ? Lin.of(a.lit.charAt(0)) : a.ch;
      Facts first = g.andNe(Terms.charAt(b.base, b.from).sub(want));
      if (first != null && Cong.find(first).where != null) return new R(NEQ, why, first);
      Facts later = g.andGe(n.add(-2));
      if (later == null) return first == null || Cong.find(first).impossible ? SAME : new R(UNKNOWN, why, g);
      later = later.andNe(Terms.charAt(b.base, b.from.add(1)).sub(want));
      return new R(later == null ? UNKNOWN : NEQ, why, later == null ? g : later);
    }
    return new R(op ? UNKNOWN : NEQ, why, g);
  }

  private SegCmp() {}
}
