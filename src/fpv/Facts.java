package fpv;

import java.math.BigInteger;
import java.util.*;

/**
 * Numeric abstract domain: convex polyhedra in constraint form (plus disequalities), with atom ranges
 * as implicit constraints. Immutable. Emptiness by variable elimination, join by constraint-wise
 * entailment, widening by dropping unstable constraints.
 */
final class Facts {
  static final Facts TOP = new Facts(new Lin[0], new Lin[0], new Lin[0]);
  static long emptinessTests = 0;

  final Lin[] ge; // each >= 0
  final Lin[] eq; // each == 0
  final Lin[] ne; // each != 0
  private final Map<Lin, Boolean> cacheGe = new HashMap<>();
  private final Map<Lin, Boolean> cacheEq = new HashMap<>();

  private Facts(Lin[] ge, Lin[] eq, Lin[] ne) {
    this.ge = ge;
    this.eq = eq;
    this.ne = ne;
  }

  // ---- construction --------------------------------------------------------------------------

  private static Lin normGe(Lin l) {
    if (l.atoms.length == 0) return l;
    BigInteger g = BigInteger.ZERO;
    for (BigInteger k : l.coef) g = g.gcd(k);
    if (g.equals(BigInteger.ONE)) return l;
    BigInteger[] nc = new BigInteger[l.coef.length];
    for (int i = 0; i < nc.length; i++) nc[i] = l.coef[i].divide(g);
    return new Lin(floorDiv(l.c, g), l.atoms, nc);
  }

  /** Returns null when the equality has no integer solution. */
  private static Lin normEq(Lin l) {
    if (l.atoms.length == 0) return l.c.signum() == 0 ? l : null;
    BigInteger g = BigInteger.ZERO;
    for (BigInteger k : l.coef) g = g.gcd(k);
    if (!g.equals(BigInteger.ONE)) {
      if (l.c.mod(g).signum() != 0) return null;
      BigInteger[] nc = new BigInteger[l.coef.length];
      for (int i = 0; i < nc.length; i++) nc[i] = l.coef[i].divide(g);
      l = new Lin(l.c.divide(g), l.atoms, nc);
    }
    if (l.coef[0].signum() < 0) l = l.neg();
    return l;
  }

  static BigInteger floorDiv(BigInteger a, BigInteger b) {
    BigInteger[] qr = a.divideAndRemainder(b);
    return qr[1].signum() != 0 && (qr[1].signum() != b.signum()) ? qr[0].subtract(BigInteger.ONE) : qr[0];
  }

  private static Lin[] plus(Lin[] a, Lin x) {
    for (Lin l : a) if (l.equals(x)) return a;
    Lin[] r = Arrays.copyOf(a, a.length + 1);
    r[a.length] = x;
    return r;
  }

  /** Adds l >= 0; null if that makes the state unreachable. */
  Facts andGe(Lin l) {
    BigInteger lo = l.lo(), hi = l.hi();
    if (lo != null && lo.signum() >= 0) return this;
    if (hi != null && hi.signum() < 0) return null;
    l = normGe(l);
    for (Lin o : ge) if (o.equals(l)) return this;
    // opposite present -> equality
    Lin n = l.neg();
    for (Lin o : ge) if (o.equals(n)) return andEq(l);
    if (!sat(l, null)) return null;
    if (satisfies(l)) return this;
    return new Facts(plus(ge, l), eq, ne);
  }

  Facts andEq(Lin l) {
    l = normEq(l);
    if (l == null) return null;
    if (l.isConst()) return this;
    for (Lin o : eq) if (o.equals(l)) return this;
    if (!sat(null, l)) return null;
    if (entailsEq(l)) return this;
    return new Facts(ge, plus(eq, l), ne);
  }

  Facts andNe(Lin l) {
    if (l.isConst()) return l.c.signum() == 0 ? null : this;
    Lin n = normEq(l);
    if (n == null) return this;
    for (Lin o : ne) if (o.equals(n)) return this;
    if (entailsEq(n)) return null;
    if (entailsGe(n)) return andGe(n.add(-1));
    if (entailsGe(n.neg())) return andGe(n.neg().add(-1));
    return new Facts(ge, eq, plus(ne, n));
  }

  Facts and(Facts o) {
    Facts f = this;
    for (Lin l : o.eq) {
      f = f.andEq(l);
      if (f == null) return null;
    }
    for (Lin l : o.ge) {
      f = f.andGe(l);
      if (f == null) return null;
    }
    for (Lin l : o.ne) {
      f = f.andNe(l);
      if (f == null) return null;
    }
    return f;
  }

  // ---- queries -------------------------------------------------------------------------------

  private boolean satisfies(Lin l) {
    return !sat(l.neg().add(-1), null);
  }

  boolean entailsGe(Lin l) {
    BigInteger lo = l.lo(), hi = l.hi();
    if (lo != null && lo.signum() >= 0) return true;
    if (hi != null && hi.signum() < 0) return isBottomish();
    if (l.isConst()) return l.c.signum() >= 0;
    if (ge.length == 0 && eq.length == 0 && ne.length == 0) return false;
    Boolean b = cacheGe.get(l);
    if (b == null) {
      b = !sat(l.neg().add(-1), null);
      cacheGe.put(l, b);
    }
    return b;
  }

  private boolean isBottomish() {
    return false;
  }

  boolean entailsEq(Lin l) {
    if (l.isConst()) return l.c.signum() == 0;
    if (eq.length == 0 && ge.length == 0 && l.atoms.length == 1) {
      BigInteger lo = l.lo(), hi = l.hi();
      return lo != null && hi != null && lo.signum() == 0 && hi.signum() == 0;
    }
    Boolean b = cacheEq.get(l);
    if (b == null) {
      b = entailsGe(l) && entailsGe(l.neg());
      cacheEq.put(l, b);
    }
    return b;
  }

  boolean entailsNe(Lin l) {
    if (l.isConst()) return l.c.signum() != 0;
    Lin n = normEq(l);
    if (n == null) return true;
    for (Lin o : ne) if (o.equals(n)) return true;
    return !sat(null, l);
  }

  boolean possibleGe(Lin l) {
    return !entailsGe(l.neg().add(-1));
  }

  boolean possibleEq(Lin l) {
    return !entailsNe(l);
  }

  /** Constant value of l if entailed, else null. */
  BigInteger valueOf(Lin l) {
    if (l.isConst()) return l.c;
    BigInteger lo = l.lo(), hi = l.hi();
    if (lo != null && lo.equals(hi)) return lo;
    // direct equalities only: cheap
    Lin r = reduce(l);
    if (r.isConst()) return r.c;
    // bounds of a single atom squeezed by constraints
    if (r.atoms.length == 1 && ge.length > 0) {
      BigInteger l2 = lowerBound(r), h2 = upperBound(r);
      if (l2 != null && l2.equals(h2)) return l2;
    }
    return null;
  }

  /** Rewrites l with the equalities (each solved for its newest atom with coefficient +-1). */
  Lin reduce(Lin l) {
    for (int round = 0; round < 4; round++) {
      Lin start = l;
      for (Lin e : eq) {
        int pick = -1;
        for (int i = 0; i < e.atoms.length; i++)
          if (e.coef[i].abs().equals(BigInteger.ONE)) pick = i;
        if (pick < 0) continue;
        BigInteger k = l.coefOf(e.atoms[pick]);
        if (k.signum() == 0) continue;
        l = l.comb(BigInteger.ONE, e, k.multiply(e.coef[pick]).negate());
      }
      if (l.equals(start)) break;
    }
    return l;
  }

  BigInteger lowerBound(Lin l) {
    BigInteger best = l.lo();
    for (Lin g : ge) {
      // l - q*g constant?
      Lin d = l.sub(g);
      if (d.isConst() && (best == null || d.c.compareTo(best) > 0)) best = d.c;
      else {
        BigInteger x = d.lo();
        if (x != null && (best == null || x.compareTo(best) > 0)) best = x;
      }
    }
    return best;
  }

  BigInteger upperBound(Lin l) {
    BigInteger b = lowerBound(l.neg());
    return b == null ? null : b.negate();
  }

  /** An integer point of the polyhedron, null if none was found. */
  Map<T, BigInteger> point() {
    LinkedHashSet<T> atoms = new LinkedHashSet<>();
    for (Lin[] ls : new Lin[][] {eq, ge, ne}) for (Lin l : ls) atoms.addAll(Arrays.asList(l.atoms));
    Map<T, BigInteger> m = new LinkedHashMap<>();
    int[] budget = {400};
    return fix(this, new ArrayList<>(atoms), 0, m, budget) ? m : null;
  }

  /** The value an equation gives the atom when all its other atoms have values. */
  private BigInteger solved(T t, Map<T, BigInteger> m) {
    for (Lin l : eq) {
      BigInteger k = l.coefOf(t), v = l.c;
      if (k.signum() == 0) continue;
      for (int i = 0; i < l.atoms.length && v != null; i++)
        if (l.atoms[i] != t) {
          BigInteger w = m.get(l.atoms[i]);
          v = w == null ? null : v.add(l.coef[i].multiply(w));
        }
      if (v != null && v.mod(k.abs()).signum() == 0) return v.negate().divide(k);
    }
    return null;
  }

  private static boolean apart(Lin[] ne, T t, Map<T, BigInteger> m) {
    for (Lin l : ne) {
      if (l.coefOf(t).signum() == 0) continue;
      BigInteger v = l.c;
      for (int i = 0; i < l.atoms.length && v != null; i++) {
        BigInteger w = m.get(l.atoms[i]);
        v = w == null ? null : v.add(l.coef[i].multiply(w));
      }
      if (v != null && v.signum() == 0) return false;
    }
    return true;
  }

  private static boolean fix(Facts f, List<T> ts, int i, Map<T, BigInteger> m, int[] budget) {
    if (i == ts.size()) return true;
    T t = ts.get(i);
    Lin x = Lin.of(t);
    LinkedHashSet<BigInteger> c = new LinkedHashSet<>();
    BigInteger v = f.valueOf(x);
    if (v == null) v = f.solved(t, m);
    if (v != null) c.add(v);
    else {
      for (long k : new long[] {0, 1, -1, 2, 3, 4, 5, 7, 8, 12, 20}) c.add(BigInteger.valueOf(k));
      BigInteger lo = f.lowerBound(x), hi = f.upperBound(x);
      if (lo != null) {
        c.add(lo);
        c.add(lo.add(BigInteger.ONE));
      }
      if (hi != null) {
        c.add(hi);
        c.add(hi.subtract(BigInteger.ONE));
      }
      for (Lin g : f.ge)
        if (g.coefOf(t).signum() != 0) {
          BigInteger[] q = g.c.negate().divideAndRemainder(g.coefOf(t));
          c.add(q[0]);
          c.add(q[0].add(BigInteger.ONE));
          c.add(q[0].subtract(BigInteger.ONE));
        }
    }
    for (BigInteger k : c) {
      if ((t.lo != null && k.compareTo(t.lo) < 0) || (t.hi != null && k.compareTo(t.hi) > 0)) continue;
      if (--budget[0] < 0) return false;
      Facts g = f.andEq(x.add(Lin.of(k.negate())));
      if (g == null) continue;
      m.put(t, k);
      if (apart(f.ne, t, m) && fix(g, ts, i + 1, m, budget)) return true;
      m.remove(t);
    }
    return false;
  }

  Facts rename(Subst s) {
    boolean ch = false;
    for (Lin[] ls : new Lin[][] {eq, ge, ne}) for (Lin l : ls) ch |= s.lin(l) != l;
    if (!ch) return this;
    Facts r = TOP;
    for (Lin l : eq) if ((r = r.andEq(s.lin(l))) == null) return null;
    for (Lin l : ge) if ((r = r.andGe(s.lin(l))) == null) return null;
    for (Lin l : ne) if ((r = r.andNe(s.lin(l))) == null) return null;
    return r;
  }

  boolean opaque() {
    return unknown() != null;
  }

  /** A fact about a value without a model, except that a flag is 0 or 1, which says nothing about it. */
  Lin unknown() {
    for (Lin l : ge) if (T.isOpaque(l) && !flag(l)) return l;
    for (Lin[] ls : new Lin[][] {eq, ne}) for (Lin l : ls) if (T.isOpaque(l)) return l;
    return null;
  }

  private static boolean flag(Lin l) {
    if (l.atoms.length != 1) return false;
    if (l.coef[0].signum() > 0) return l.c.signum() == 0;
    return l.coef[0].equals(BigInteger.ONE.negate()) && l.c.equals(BigInteger.ONE);
  }

  // ---- emptiness -----------------------------------------------------------------------------

  /** Is the conjunction with (extraGe >= 0) / (extraEq == 0) satisfiable (rational + gcd tests)? */
  private boolean sat(Lin extraGe, Lin extraEq) {
    Set<T> cone = new HashSet<>();
    if (extraGe != null) cone.addAll(Arrays.asList(extraGe.atoms));
    if (extraEq != null) cone.addAll(Arrays.asList(extraEq.atoms));
    List<Lin> ges = new ArrayList<>(), eqs = new ArrayList<>(), nes = new ArrayList<>();
    boolean[] gd = new boolean[ge.length], ed = new boolean[eq.length];
    boolean ch = true;
    while (ch) {
      ch = false;
      for (int i = 0; i < ge.length; i++)
        if (!gd[i] && touches(ge[i], cone)) {
          gd[i] = true;
          ges.add(ge[i]);
          if (cone.addAll(Arrays.asList(ge[i].atoms))) ch = true;
        }
      for (int i = 0; i < eq.length; i++)
        if (!ed[i] && touches(eq[i], cone)) {
          ed[i] = true;
          eqs.add(eq[i]);
          if (cone.addAll(Arrays.asList(eq[i].atoms))) ch = true;
        }
    }
    for (Lin n : ne) if (cone.containsAll(Arrays.asList(n.atoms))) nes.add(n);
    if (extraGe != null) ges.add(extraGe);
    if (extraEq != null) eqs.add(extraEq);
    if (!feasible(ges, eqs, cone)) return false;
    // disequalities: propagate one at a time
    for (Lin n : nes) {
      List<Lin> g1 = new ArrayList<>(ges);
      g1.add(n.add(-1));
      boolean pos = feasible(g1, eqs, cone);
      List<Lin> g2 = new ArrayList<>(ges);
      g2.add(n.neg().add(-1));
      boolean neg = feasible(g2, eqs, cone);
      if (!pos && !neg) return false;
      if (!pos) ges = g2;
      else if (!neg) ges = g1;
    }
    return true;
  }

  private static boolean touches(Lin l, Set<T> cone) {
    for (T t : l.atoms) if (cone.contains(t)) return true;
    return false;
  }

  static boolean feasible(List<Lin> ges, List<Lin> eqs, Set<T> atoms) {
    emptinessTests++;
    // substitute equalities
    List<Lin> E = new ArrayList<>(eqs), G = new ArrayList<>(ges);
    for (T t : atoms) {
      if (t.lo != null) G.add(Lin.of(t).add(Lin.of(t.lo.negate())));
      if (t.hi != null) G.add(Lin.of(t.hi).sub(Lin.of(t)));
    }
    while (!E.isEmpty()) {
      Lin e = normEq(E.remove(E.size() - 1));
      if (e == null) return false;
      if (e.isConst()) continue;
      int pick = 0;
      for (int i = 0; i < e.atoms.length; i++)
        if (e.coef[i].abs().compareTo(e.coef[pick].abs()) < 0) pick = i;
      T v = e.atoms[pick];
      BigInteger kv = e.coef[pick];
      for (int i = 0; i < E.size(); i++) E.set(i, elim(E.get(i), e, v, kv));
      for (int i = 0; i < G.size(); i++) G.set(i, elim(G.get(i), e, v, kv));
    }
    // Fourier-Motzkin style elimination
    LinkedHashSet<Lin> cur = new LinkedHashSet<>();
    for (Lin g : G) {
      g = normGe(g);
      if (g.isConst()) {
        if (g.c.signum() < 0) return false;
      } else cur.add(g);
    }
    while (true) {
      cur = prune(cur);
      if (cur == null) return false;
      Map<T, int[]> cnt = new HashMap<>();
      for (Lin g : cur)
        for (int i = 0; i < g.atoms.length; i++) {
          int[] pn = cnt.computeIfAbsent(g.atoms[i], k -> new int[2]);
          pn[g.coef[i].signum() > 0 ? 0 : 1]++;
        }
      if (cnt.isEmpty()) return true;
      T best = null;
      long bc = Long.MAX_VALUE;
      for (Map.Entry<T, int[]> en : cnt.entrySet()) {
        long cost = (long) en.getValue()[0] * en.getValue()[1] - en.getValue()[0] - en.getValue()[1];
        if (cost < bc || (cost == bc && en.getKey().id < best.id)) {
          bc = cost;
          best = en.getKey();
        }
      }
      List<Lin> P = new ArrayList<>(), N = new ArrayList<>();
      LinkedHashSet<Lin> next = new LinkedHashSet<>();
      for (Lin g : cur) {
        int s = g.coefOf(best).signum();
        if (s > 0) P.add(g);
        else if (s < 0) N.add(g);
        else next.add(g);
      }
      for (Lin p : P)
        for (Lin n : N) {
          Lin r = normGe(p.comb(n.coefOf(best).negate(), n, p.coefOf(best)));
          if (r.isConst()) {
            if (r.c.signum() < 0) return false;
          } else next.add(r);
        }
      if (next.size() > 4000) return true; // give up: sound (treat as non-empty)
      cur = next;
    }
  }

  /** Keeps only the tightest constraint per linear part. */
  private static LinkedHashSet<Lin> prune(LinkedHashSet<Lin> in) {
    Map<List<Object>, Lin> best = new LinkedHashMap<>();
    for (Lin g : in) {
      List<Object> key = new ArrayList<>();
      for (int i = 0; i < g.atoms.length; i++) {
        key.add(g.atoms[i]);
        key.add(g.coef[i]);
      }
      Lin o = best.get(key);
      if (o == null || g.c.compareTo(o.c) < 0) best.put(key, g);
    }
    return new LinkedHashSet<>(best.values());
  }

  private static Lin elim(Lin g, Lin e, T v, BigInteger kv) {
    BigInteger kg = g.coefOf(v);
    if (kg.signum() == 0) return g;
    // |kv|*g - sign(kv)*kg*e  removes v and keeps the direction of g
    return g.comb(kv.abs(), e, kg.multiply(BigInteger.valueOf(kv.signum())).negate());
  }

  // ---- join / widening -----------------------------------------------------------------------

  /** Constraint-wise join: keeps what both sides entail. */
  Facts join(Facts o) {
    if (this == o) return this;
    Facts r = TOP;
    LinkedHashSet<Lin> g = new LinkedHashSet<>(), e = new LinkedHashSet<>(), n = new LinkedHashSet<>();
    joinInto(this, o, g, e, n);
    joinInto(o, this, g, e, n);
    return new Facts(g.toArray(new Lin[0]), e.toArray(new Lin[0]), n.toArray(new Lin[0]));
  }

  private static void joinInto(Facts a, Facts b, Set<Lin> g, Set<Lin> e, Set<Lin> n) {
    for (Lin l : a.eq) {
      if (b.entailsEq(l)) e.add(l);
      else {
        if (b.entailsGe(l)) g.add(l);
        if (b.entailsGe(l.neg())) g.add(l.neg());
      }
    }
    for (Lin l : a.ge) if (b.entailsGe(l)) g.add(l);
    for (Lin l : a.ne) if (b.entailsNe(l)) n.add(l);
  }

  /** The join when it adds nothing that neither side allowed, else null. */
  static Facts exactJoin(Facts a, Facts b) {
    int da = a.ge.length + a.eq.length + a.ne.length, db = b.ge.length + b.eq.length + b.ne.length;
    if (Math.abs(da - db) > 4) return null;
    Facts j = a.join(b);
    List<Facts> outside = new ArrayList<>();
    for (Lin l : a.eq)
      if (!j.entailsEq(l)) {
        outside.add(j.andGe(l.add(-1)));
        outside.add(j.andGe(l.neg().add(-1)));
      }
    for (Lin l : a.ge) if (!j.entailsGe(l)) outside.add(j.andGe(l.neg().add(-1)));
    for (Lin l : a.ne) if (!j.entailsNe(l)) outside.add(j.andEq(l));
    if (outside.size() > 6) return null;
    for (Facts f : outside) if (f != null && !f.implies(b)) return null;
    return j;
  }

  boolean implies(Facts o) {
    for (Lin l : o.eq) if (!entailsEq(l)) return false;
    for (Lin l : o.ge) if (!entailsGe(l)) return false;
    for (Lin l : o.ne) if (!entailsNe(l)) return false;
    return true;
  }

  @Override
  public String toString() {
    StringBuilder sb = new StringBuilder();
    for (Lin l : eq) sb.append(l).append("==0; ");
    for (Lin l : ge) sb.append(l).append(">=0; ");
    for (Lin l : ne) sb.append(l).append("!=0; ");
    return sb.toString();
  }
}
