package fpv;

import java.util.*;

/**
 * Text domain: a text is a list of segments. LIT is known characters, RUN is one character repeated a
 * (symbolic) number of times, SUB is a slice of the text named by a term, optionally upper-cased.
 */
final class Seg {
  enum K {
    LIT,
    RUN,
    SUB
  }

  final K k;
  final String lit; // LIT
  final Lin ch, n; // RUN
  final T base; // SUB
  final Lin from, to; // SUB
  final boolean upper; // SUB, RUN with unknown char

  private Seg(K k, String lit, Lin ch, Lin n, T base, Lin from, Lin to, boolean upper) {
    this.k = k;
    this.lit = lit;
    this.ch = ch;
    this.n = n;
    this.base = base;
    this.from = from;
    this.to = to;
    this.upper = upper;
  }

  static List<Seg> lit(String s) {
    return s.isEmpty() ? Collections.emptyList() : Collections.singletonList(mkLit(s));
  }

  static Seg mkLit(String s) {
    return new Seg(K.LIT, s, null, null, null, null, null, false);
  }

  static Seg run(Lin ch, Lin n) {
    return run(ch, n, false);
  }

  static Seg run(Lin ch, Lin n, boolean upper) {
    if (ch.isConst()) {
      int c = ch.c.intValue();
      if (upper && c >= 'a' && c <= 'z') ch = Lin.of(c - 32);
      upper = false;
    }
    return new Seg(K.RUN, null, ch, n, null, null, null, upper);
  }

  static Seg sub(T base, Lin from, Lin to, boolean upper) {
    if (upper && noLower(base)) upper = false;
    return new Seg(K.SUB, null, null, null, base, from, to, upper);
  }

  /** Texts that never contain a lower-case ASCII letter. */
  static boolean noLower(T base) {
    return base.fn.equals("DEC") || (base.fn.equals("NAT") && base.args.get(0) instanceof Lin
        && ((Lin) base.args.get(0)).c.intValue() <= 10);
  }

  static List<Seg> whole(T base) {
    return Collections.singletonList(sub(base, Lin.ZERO, Terms.len(base), false));
  }

  Lin len() {
    switch (k) {
      case LIT:
        return Lin.of(lit.length());
      case RUN:
        return n;
      default:
        return to.sub(from);
    }
  }

  boolean opaque() {
    switch (k) {
      case LIT:
        return false;
      case RUN:
        return T.isOpaque(ch) || T.isOpaque(n);
      default:
        return base.opaque || T.isOpaque(from) || T.isOpaque(to);
    }
  }

  static Lin len(List<Seg> l) {
    Lin r = Lin.ZERO;
    for (Seg s : l) r = r.add(s.len());
    return r;
  }

  static String asLit(List<Seg> l) {
    if (l.isEmpty()) return "";
    StringBuilder sb = new StringBuilder();
    for (Seg s : l) {
      if (s.k == K.LIT) sb.append(s.lit);
      else if (s.k == K.RUN && s.n.isConst() && s.ch.isConst() && s.n.c.bitLength() < 12)
        for (int i = 0; i < s.n.c.intValue(); i++) sb.append((char) s.ch.c.intValue());
      else return null;
    }
    return sb.toString();
  }

  static List<Seg> concat(List<Seg> a, List<Seg> b) {
    if (a.isEmpty()) return b;
    if (b.isEmpty()) return a;
    List<Seg> r = new ArrayList<>(a.size() + b.size());
    for (Seg s : a) push(r, s);
    for (Seg s : b) push(r, s);
    return r;
  }

  static List<Seg> of(Seg... segs) {
    List<Seg> r = new ArrayList<>();
    for (Seg s : segs) push(r, s);
    return r;
  }

  /** Appends with local normalisation (adjacent literals, runs and slices are fused). */
  static void push(List<Seg> r, Seg s) {
    if (s.k == K.LIT && s.lit.isEmpty()) return;
    if (s.k == K.RUN && s.n.isConst()) {
      if (s.n.c.signum() <= 0) return;
      if (s.ch.isConst() && s.n.c.bitLength() < 8) {
        StringBuilder sb = new StringBuilder();
        for (int i = 0; i < s.n.c.intValue(); i++) sb.append((char) s.ch.c.intValue());
        s = mkLit(sb.toString());
      }
    }
    if (s.k == K.SUB && s.from.equals(s.to)) return;
    if (!r.isEmpty()) {
      Seg p = r.get(r.size() - 1);
      if (p.k == K.LIT && s.k == K.LIT) {
        r.set(r.size() - 1, mkLit(p.lit + s.lit));
        return;
      }
      if (p.k == K.RUN && s.k == K.RUN && p.ch.equals(s.ch) && p.upper == s.upper) {
        r.set(r.size() - 1, run(p.ch, p.n.add(s.n), p.upper));
        return;
      }
      if (p.k == K.SUB && s.k == K.SUB && p.base == s.base && p.upper == s.upper && p.to.equals(s.from)) {
        r.set(r.size() - 1, sub(p.base, p.from, s.to, p.upper));
        return;
      }
    }
    r.add(s);
  }

  static List<Seg> upper(List<Seg> l) {
    List<Seg> r = new ArrayList<>();
    for (Seg s : l) {
      switch (s.k) {
        case LIT:
          {
            StringBuilder sb = new StringBuilder();
            for (char c : s.lit.toCharArray()) sb.append(c >= 'a' && c <= 'z' ? (char) (c - 32) : c);
            push(r, mkLit(sb.toString()));
            break;
          }
        case RUN:
          push(r, run(s.ch, s.n, true));
          break;
        default:
          push(r, sub(s.base, s.from, s.to, true));
      }
    }
    return r;
  }

  /** Result of cutting a text at a position. */
  static final class Cut {
    final List<Seg> left, right;

    Cut(List<Seg> l, List<Seg> r) {
      left = l;
      right = r;
    }
  }

  /** Cuts at pos if the facts determine the segment in which pos lies; null otherwise. */
  static Cut cut(List<Seg> l, Lin pos, Facts f) {
    List<Seg> left = new ArrayList<>();
    Lin off = Lin.ZERO;
    for (int i = 0; i <= l.size(); i++) {
      Lin d = pos.sub(off); // distance into segment i
      if (f.entailsEq(d)) return new Cut(left, new ArrayList<>(l.subList(i, l.size())));
      if (i == l.size()) return null;
      Seg s = l.get(i);
      Lin len = s.len();
      Lin rest = len.sub(d);
      if (f.entailsGe(d) && f.entailsGe(rest) && !f.entailsEq(rest)) {
        List<Seg> right = new ArrayList<>();
        switch (s.k) {
          case LIT:
            {
              java.math.BigInteger v = f.valueOf(d);
              if (v == null) return null;
              push(left, mkLit(s.lit.substring(0, v.intValue())));
              push(right, mkLit(s.lit.substring(v.intValue())));
              break;
            }
          case RUN:
            push(left, run(s.ch, d, s.upper));
            push(right, run(s.ch, rest, s.upper));
            break;
          default:
            push(left, sub(s.base, s.from, s.from.add(d), s.upper));
            push(right, sub(s.base, s.from.add(d), s.to, s.upper));
        }
        for (int j = i + 1; j < l.size(); j++) push(right, l.get(j));
        return new Cut(left, right);
      }
      push(left, s);
      off = off.add(len);
    }
    return null;
  }

  /** Boundary offsets, for case distinctions when cut() cannot place a position. */
  static List<Lin> boundaries(List<Seg> l) {
    List<Lin> r = new ArrayList<>();
    Lin off = Lin.ZERO;
    for (Seg s : l) {
      off = off.add(s.len());
      r.add(off);
    }
    return r;
  }

  @Override
  public boolean equals(Object o) {
    if (!(o instanceof Seg)) return false;
    Seg s = (Seg) o;
    if (s.k != k) return false;
    switch (k) {
      case LIT:
        return lit.equals(s.lit);
      case RUN:
        return ch.equals(s.ch) && n.equals(s.n) && upper == s.upper;
      default:
        return base == s.base && from.equals(s.from) && to.equals(s.to) && upper == s.upper;
    }
  }

  @Override
  public int hashCode() {
    switch (k) {
      case LIT:
        return lit.hashCode();
      case RUN:
        return ch.hashCode() * 31 + n.hashCode();
      default:
        return base.hashCode() * 31 + from.hashCode() * 7 + to.hashCode();
    }
  }

  static String chName(Lin ch) {
    if (ch.isConst()) {
      int c = ch.c.intValue();
      if (c >= 32 && c < 127) return "'" + (char) c + "'";
    }
    return "chr(" + ch + ")";
  }

  @Override
  public String toString() {
    switch (k) {
      case LIT:
        return "\"" + lit.replace("\n", "\\n") + "\"";
      case RUN:
        return (upper ? "upper " : "") + chName(ch) + "x{" + n + "}";
      default:
        return (upper ? "upper " : "") + base + "[" + from + ".." + to + "]";
    }
  }

  static String show(List<Seg> l) {
    if (l.isEmpty()) return "\"\"";
    StringBuilder sb = new StringBuilder();
    for (Seg s : l) {
      if (sb.length() > 0) sb.append(" ++ ");
      sb.append(s);
    }
    return sb.toString();
  }
}
