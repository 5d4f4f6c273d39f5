package fpv;

import java.math.BigInteger;
import java.util.*;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;

/** Transfer functions of the Java library methods (and of Seq, when it is treated as a text algebra). */
final class Models {
  final Interp in;
  /** Appends to a symbolic Appendable may fail with IOException. */
  boolean ioThrows = false;
  /** Builders remember that their capacity never shrinks. */
  boolean capacities = false;
  /** Are conversions between the types of java.time functions with results of their own? */
  boolean conversions = false;
  /** Repository interface methods never inlined on symbolic receivers, "Owner.name". */
  final Set<String> abstractMethods = new HashSet<>();

  interface LazyListener {
    void lazy(State st, Lin declared, List<Seg> text, String where);
  }

  LazyListener lazyListener;

  Models(Interp in) {
    this.in = in;
  }

  static final String SB = "java/lang/StringBuilder";
  static final String STR = "Ljava/lang/String;";
  static final String IOOBE = "java/lang/StringIndexOutOfBoundsException";
  static final String AIOOBE = "java/lang/ArrayIndexOutOfBoundsException";

  boolean keepAbstract(String cls, String name) {
    return abstractMethods.contains(cls + "." + name);
  }

  boolean isSeqType(String desc) {
    return desc.equals("Lio/fastprintf/seq/Seq;") || desc.equals("Lio/fastprintf/seq/AtomicSeq;");
  }

  // ---- objects -------------------------------------------------------------------------------

  HObj fresh(String c) {
    switch (c) {
      case "java/lang/StringBuilder":
      case "java/lang/StringBuffer":
        return new HObj(c, Collections.emptyMap(), Collections.<Seg>emptyList(), null);
      case "java/util/ArrayList":
      case "java/util/LinkedList":
      case "java/util/ArrayDeque":
        return new HObj(c, Collections.emptyMap(), Collections.<Val>emptyList(), null);
      default:
        return isMap(c) ? new HObj(c, Collections.emptyMap(), Collections.<Val>emptyList(), null) : new HObj(c);
    }
  }

  /** Maps hold a list of keys and values in turn. */
  static boolean isMap(String c) {
    switch (c) {
      case "java/util/HashMap":
      case "java/util/LinkedHashMap":
      case "java/util/TreeMap":
      case "java/util/EnumMap":
      case "java/util/Hashtable":
      case "java/util/concurrent/ConcurrentHashMap":
        return true;
      default:
        return false;
    }
  }

  /** A builder with unknown content. */
  ObjV symbolicBuilder(State st, String name) {
    return st.alloc(new HObj(SB, Collections.emptyMap(), Seg.whole(T.of(name, STR)), null));
  }

  ObjV symbolicAppendable(State st, String name) {
    return st.alloc(new HObj("$Appendable", Collections.emptyMap(), Collections.<Seg>emptyList(), null));
  }

  static boolean isText(HObj h) {
    return h != null && (h.cls.equals(SB) || h.cls.equals("java/lang/StringBuffer") || h.cls.equals("$Appendable"));
  }

  static boolean isList(HObj h) {
    return h != null && (h.cls.equals("java/util/ArrayList") || h.cls.equals("java/util/LinkedList") || h.cls.equals("java/util/ArrayDeque") || h.cls.equals("$List"));
  }

  // ---- arrays --------------------------------------------------------------------------------

  List<Out> newArray(State st, String elem, Lin n, String where) {
    List<Out> r = new ArrayList<>();
    if (!st.facts.entailsGe(n)) {
      State bad = st.withGe(n.neg().add(-1));
      if (bad != null) r.add(in.raise(bad, "java/lang/NegativeArraySizeException", where));
      st = st.withGe(n);
      if (st == null) return r;
    }
    String cls = "[" + elem;
    if (elem.equals("C")) {
      List<Seg> s = new ArrayList<>();
      Seg.push(s, Seg.run(Lin.ZERO, n));
      r.add(new Out(st, st.alloc(new HObj(cls, Collections.emptyMap(), s, n)), false));
      return r;
    }
    BigInteger c = st.facts.valueOf(n);
    if (c != null && c.bitLength() < 14) {
      List<Val> l = new ArrayList<>(Collections.nCopies(c.intValue(), Interp.zero(elem)));
      r.add(new Out(st, st.alloc(new HObj(cls, Collections.emptyMap(), l, null)), false));
      return r;
    }
    Map<String, Val> f = new LinkedHashMap<>();
    f.put("$content", T.of(T.freshName("?array"), cls));
    r.add(new Out(st, st.alloc(new HObj(cls, f, null, n)), false));
    return r;
  }

  Lin arrayLen(State st, Val a) {
    HObj h = in.obj(st, a);
    if (h != null) {
      if (h.cls.equals("[C")) return Seg.len(h.text());
      if (h.data != null) return Lin.of(h.list().size());
      if (h.len != null) return h.len;
    }
    if (a instanceof T) return Terms.len((T) a);
    throw new Undecided("length of " + a);
  }

  private List<Out> bounds(State st, Lin i, Lin len, String ex, String where, List<Out> bad) {
    // returns singleton with the in-bounds state, or empty
    if (!st.facts.entailsGe(i)) {
      State lo = st.withGe(i.neg().add(-1));
      if (lo != null) bad.add(in.raise(lo, ex, where));
      st = st.withGe(i);
      if (st == null) return Collections.emptyList();
    }
    Lin d = len.sub(i).add(-1);
    if (!st.facts.entailsGe(d)) {
      State hi = st.withGe(d.neg().add(-1));
      if (hi != null) bad.add(in.raise(hi, ex, where));
      st = st.withGe(d);
      if (st == null) return Collections.emptyList();
    }
    return Out.ret(st, null);
  }

  /** Loads from constant tables are taken to be in range. */
  boolean wholeTables;

  /** Names tables by what they hold; empty when unknown. */
  java.util.function.Function<List<Val>, String> tableName;

  List<Out> arrayGet(State st, Val a, Lin i, int op, String where) {
    if (a instanceof NullV) return Collections.singletonList(in.raise(st, "java/lang/NullPointerException", where));
    HObj h = in.obj(st, a);
    List<Out> r = new ArrayList<>();
    boolean table = wholeTables && h != null && h.data != null && h.cls.equals("[J") && st.facts.valueOf(i) == null;
    for (Out ok : table ? Out.ret(st, null) : bounds(st, i, arrayLen(st, a), AIOOBE, where, r)) {
      State s = ok.st;
      if (h != null && h.cls.equals("[C")) {
        r.addAll(charAt(s, h.text(), i));
        continue;
      }
      String elem;
      if (h != null && h.data != null) {
        List<Val> l = h.list();
        BigInteger c = s.facts.valueOf(i);
        if (c != null) {
          r.add(new Out(s, l.get(c.intValue()), false));
          continue;
        }
        Val g = generalise(s, l, i);
        if (g != null) {
          r.add(new Out(s, g, false));
          continue;
        }
        if (l.size() <= 40 && h.cls.charAt(1) != 'J') {
          for (int k = 0; k < l.size(); k++) {
            State x = s.withEq(i.add(-k));
            if (x != null) r.add(new Out(x, l.get(k), false));
          }
          continue;
        }
        elem = h.cls.substring(1);
        List<int[]> runs = runs(l);
        if (runs.size() <= 60 && !elem.equals("J")) {
          for (int[] k : runs) {
            State x = s.withGe(i.add(-k[0]));
            if (x != null) x = x.withGe(Lin.of(k[1]).sub(i));
            if (x != null) r.add(new Out(x, l.get(k[0]), false));
          }
          continue;
        }
        if (elem.length() > 1) throw new Undecided("table of " + elem);
        String known = tableName == null ? "" : tableName.apply(l);
        String key = "TABLE:" + known + (!known.isEmpty() ? "" : Integer.toHexString(l.hashCode()) + ":" + l.size());
        r.add(new Out(s, in.mk(elem, T.of(key, elem, i)), false));
        continue;
      }
      T base = a instanceof T ? (T) a : (T) h.fields.get("$content");
      elem = base.desc.startsWith("[") ? base.desc.substring(1) : "Ljava/lang/Object;";
      if (h == null || !h.fields.containsKey("$content")) r.add(new Out(s, in.mk(elem, T.of(elem.equals("C") ? "CHAR" : "elem", elem, base, i)), false));
      else r.add(new Out(s, in.mk(elem, T.of("elem", elem, base, i)), false));
    }
    return r;
  }

  /** First and last index of each stretch of equal elements. */
  private static List<int[]> runs(List<Val> l) {
    List<int[]> r = new ArrayList<>();
    for (int i = 0; i < l.size(); i++)
      if (i > 0 && l.get(i).equals(l.get(i - 1))) r.get(r.size() - 1)[1] = i;
      else r.add(new int[] {i, i});
    return r;
  }

  /** One value standing for list[i] when all elements follow an affine pattern in i. */
  private Val generalise(State st, List<Val> l, Lin i) {
    if (l.size() < 3) return null;
    Val a0 = l.get(0);
    if (a0 instanceof Lin) {
      Lin fit = fit(l, i);
      return fit;
    }
    if (!(a0 instanceof ObjV)) return null;
    HObj h0 = in.obj(st, a0);
    if (h0 == null || h0.data != null) return null;
    Map<String, Val> f = new LinkedHashMap<>();
    for (String name : h0.fields.keySet()) {
      List<Val> col = new ArrayList<>();
      for (Val v : l) {
        HObj h = in.obj(st, v);
        if (h == null || !h.cls.equals(h0.cls) || !h.fields.keySet().equals(h0.fields.keySet())) return null;
        col.add(h.fields.get(name));
      }
      boolean same = true;
      for (Val v : col) same &= v.equals(col.get(0));
      if (same) f.put(name, col.get(0));
      else {
        Lin fit = fit(col, i);
        if (fit == null) return null;
        f.put(name, fit);
      }
    }
    return st.alloc(new HObj(h0.cls, f, null, null));
  }

  private static Lin fit(List<Val> l, Lin i) {
    if (!(l.get(0) instanceof Lin) || !(l.get(1) instanceof Lin)) return null;
    Lin b = (Lin) l.get(0), s = ((Lin) l.get(1)).sub(b);
    if (!b.isConst() || !s.isConst()) return null;
    for (int k = 0; k < l.size(); k++) {
      if (!(l.get(k) instanceof Lin)) return null;
      if (!l.get(k).equals(b.add(s.mul(BigInteger.valueOf(k))))) return null;
    }
    return b.add(i.mul(s.c));
  }

  List<Out> arrayPut(State st, Val a, Lin i, Val v, int op, String where) {
    if (a instanceof NullV) return Collections.singletonList(in.raise(st, "java/lang/NullPointerException", where));
    HObj h = in.obj(st, a);
    List<Out> r = new ArrayList<>();
    for (Out ok : bounds(st, i, arrayLen(st, a), AIOOBE, where, r)) {
      State s = ok.st;
      if (h == null) {
        s.events.add(new Event("ARRAYSTORE", Arrays.asList(a, i, v), where));
        r.add(ok);
        continue;
      }
      if (h.cls.equals("[C")) {
        for (Cutting c : cutAt(s, h.text(), i)) {
          for (Cutting d : cutAt(c.st, c.right, Lin.ONE)) {
            List<Seg> n = Seg.concat(c.left, Seg.of(Seg.run(Interp.lin(v), Lin.ONE)));
            n = Seg.concat(n, d.right);
            in.put(d.st, a, h.withData(n));
            r.add(new Out(d.st, null, false));
          }
        }
        continue;
      }
      BigInteger c = s.facts.valueOf(i);
      if (h.data != null && c != null) {
        List<Val> n = new ArrayList<>(h.list());
        n.set(c.intValue(), v);
        in.put(s, a, h.withData(n));
        r.add(new Out(s, null, false));
        continue;
      }
      Map<String, Val> f = new LinkedHashMap<>();
      Val old = h.fields.get("$content");
      if (old == null) old = T.of(T.freshName("?array"), h.cls);
      f.put("$content", T.of("store", h.cls, old, i, v));
      in.put(s, a, new HObj(h.cls, f, null, arrayLen(s, a)));
      r.add(new Out(s, null, false));
    }
    return r;
  }

  // ---- text positions ------------------------------------------------------------------------

  static final class Cutting {
    final State st;
    final List<Seg> left, right;

    Cutting(State st, List<Seg> l, List<Seg> r) {
      this.st = st;
      left = l;
      right = r;
    }
  }

  /** Cuts a text at a position known to be within it, splitting on the segment it falls in. */
  List<Cutting> cutAt(State st, List<Seg> l, Lin pos) {
    List<Cutting> r = new ArrayList<>();
    Seg.Cut c = Seg.cut(l, pos, st.facts);
    if (c != null) {
      r.add(new Cutting(st, c.left, c.right));
      return r;
    }
    // distinguish: pos <= end of segment j
    State rest = st;
    Lin off = Lin.ZERO;
    for (int j = 0; j < l.size() && rest != null; j++) {
      Lin end = off.add(l.get(j).len());
      State here = j == l.size() - 1 ? rest : rest.withGe(end.sub(pos));
      if (here != null) {
        Seg s = l.get(j);
        Lin d = pos.sub(off);
        if (s.k == Seg.K.LIT && here.facts.valueOf(d) == null) {
          for (int k = 0; k <= s.lit.length(); k++) {
            State x = here.withEq(d.add(-k));
            if (x == null) continue;
            Seg.Cut cc = Seg.cut(l, pos, x.facts);
            if (cc == null) throw new Undecided("cut in literal");
            r.add(new Cutting(x, cc.left, cc.right));
          }
        } else {
          Seg.Cut cc = Seg.cut(l, pos, here.facts);
          if (cc == null) {
            State a = here.withGe(d.add(0));
            if (a != null) cc = Seg.cut(l, pos, a.facts);
            if (cc == null) throw new Undecided("cut " + Seg.show(l) + " at " + pos + " under " + here.facts);
            here = a;
          }
          r.add(new Cutting(here, cc.left, cc.right));
        }
      }
      rest = rest.withGe(pos.sub(end).add(-1));
      off = end;
    }
    return r;
  }

  /** Character at an index known to be in bounds. */
  List<Out> charAt(State st, List<Seg> l, Lin i) {
    List<Out> r = new ArrayList<>();
    State rest = st;
    Lin off = Lin.ZERO;
    for (int j = 0; j < l.size() && rest != null; j++) {
      Seg s = l.get(j);
      Lin end = off.add(s.len());
      State here = j == l.size() - 1 ? rest : rest.withGe(end.sub(i).add(-1));
      if (here != null) {
        Lin d = i.sub(off);
        switch (s.k) {
          case LIT:
            {
              BigInteger c = here.facts.valueOf(d);
              if (c != null) {
                if (c.signum() >= 0 && c.intValue() < s.lit.length()) r.add(new Out(here, Lin.of(s.lit.charAt(c.intValue())), false));
              } else
                for (int k = 0; k < s.lit.length(); k++) {
                  State x = here.withEq(d.add(-k));
                  if (x != null) r.add(new Out(x, Lin.of(s.lit.charAt(k)), false));
                }
              break;
            }
          case RUN:
            if (s.upper) r.addAll(upChar(here, s.ch));
            else r.add(new Out(here, s.ch, false));
            break;
          default:
            {
              Lin c = charOf(here, s.base, s.from.add(d));
              if (s.upper) r.addAll(upChar(here, c));
              else r.add(new Out(here, c, false));
            }
        }
      }
      if (j < l.size() - 1) rest = rest.withGe(i.sub(end));
      off = end;
    }
    return r;
  }

  /** Character of a named text, with what is known about digit texts. */
  Lin charOf(State st, T base, Lin i) {
    Lin c = Terms.charAt(base, i);
    if (base.fn.equals("NAT")) {
      int radix = ((Lin) base.args.get(0)).c.intValue();
      st.facts = orSame(st.facts.andGe(c.add(-'0')), st.facts);
      st.facts = orSame(st.facts.andGe(Lin.of(radix <= 10 ? '0' + radix - 1 : 'a' + radix - 11).sub(c)), st.facts);
    }
    for (Lin[] h : absences(st, base))
      if (st.facts.entailsGe(i.sub(h[0])) && st.facts.entailsGe(h[1].sub(i).add(-1))) st.facts = orSame(st.facts.andNe(c.sub(h[2])), st.facts);
    return c;
  }

  /** Slices of a named text known not to contain a character: from, to, character. */
  private static List<Lin[]> absences(State st, T base) {
    List<Lin[]> r = null;
    for (Lin e : st.facts.eq) {
      if (e.atoms.length != 1 || e.c.signum() != 0 || !e.atoms[0].fn.equals("HAS")) continue;
      Seg g = ((TextV) e.atoms[0].args.get(0)).segs.get(0);
      if (g.base != base || g.upper) continue;
      if (r == null) r = new ArrayList<>();
      r.add(new Lin[] {g.from, g.to, (Lin) e.atoms[0].args.get(1)});
    }
    return r == null ? Collections.emptyList() : r;
  }

  private static Facts orSame(Facts a, Facts b) {
    return a == null ? b : a;
  }

  List<Out> upChar(State st, Lin c) {
    List<Out> r = new ArrayList<>();
    State lo = st.withGe(Lin.of(96).sub(c));
    if (lo != null) r.add(new Out(lo, c, false));
    State ge = st.withGe(c.add(-97));
    if (ge != null) {
      State mid = ge.withGe(Lin.of(122).sub(c));
      if (mid != null) r.add(new Out(mid, c.add(-32), false));
      State hi = ge.withGe(c.add(-123));
      if (hi != null) r.add(new Out(hi, c, false));
    }
    return r;
  }

  List<Out> charAtChecked(State st, List<Seg> l, Lin i, String ex, String where) {
    List<Out> r = new ArrayList<>();
    for (Out ok : bounds(st, i, Seg.len(l), ex, where, r)) r.addAll(charAt(ok.st, l, i));
    return r;
  }

  /** Slice with bounds checks; result values are lists of segments wrapped in TextV. */
  List<Out> slice(State st, List<Seg> l, Lin from, Lin to, boolean seq, String ex, String where) {
    List<Out> r = new ArrayList<>();
    Lin len = Seg.len(l);
    Lin[] conds = {from, to.sub(from), len.sub(to)};
    for (Lin c : conds) {
      if (st.facts.entailsGe(c)) continue;
      State bad = st.withGe(c.neg().add(-1));
      if (bad != null) r.add(in.raise(bad, ex, where));
      st = st.withGe(c);
      if (st == null) return r;
    }
    for (Cutting a : cutAt(st, l, to))
      for (Cutting b : cutAt(a.st, a.left, from)) r.add(new Out(b.st, new TextV(b.right, seq), false));
    return r;
  }

  /** First index of a character; splits on containment of unknown texts. */
  List<Out> indexOf(State st, List<Seg> l, Lin ch, Lin fromIdx) {
    List<Out> r = new ArrayList<>();
    State s = st;
    Lin off = Lin.ZERO;
    if (!(fromIdx.isConst() && fromIdx.c.signum() <= 0)) {
      // search in the tail
      State neg = st.withGe(fromIdx.neg());
      if (neg != null) r.addAll(indexOf(neg, l, ch, Lin.ZERO));
      State pos = st.withGe(fromIdx.add(-1));
      if (pos == null) return r;
      Lin len = Seg.len(l);
      State past = pos.withGe(fromIdx.sub(len));
      if (past != null) r.add(new Out(past, Lin.of(-1), false));
      State inside = pos.withGe(len.sub(fromIdx).add(-1));
      if (inside == null) return r;
      for (Cutting c : cutAt(inside, l, fromIdx))
        for (Out o : indexOf(c.st, c.right, ch, Lin.ZERO)) {
          Lin v = (Lin) o.val;
          r.add(v.isConst(-1) ? o : new Out(o.st, v.add(fromIdx), false));
        }
      return r;
    }
    for (Seg g : l) {
      if (s == null) return r;
      switch (g.k) {
        case LIT:
          for (int k = 0; k < g.lit.length() && s != null; k++) {
            Lin d = ch.add(-g.lit.charAt(k));
            State x = s.withEq(d);
            if (x != null) r.add(new Out(x, off.add(k), false));
            s = s.withNe(d);
          }
          break;
        case RUN:
          {
            if (g.upper) {
              List<Seg> tail = l.subList(l.indexOf(g), l.size());
              for (Out u : upChar(s, g.ch)) {
                List<Seg> plain = new ArrayList<>();
                plain.add(Seg.run((Lin) u.val, g.n));
                plain.addAll(tail.subList(1, tail.size()));
                for (Out o : indexOf(u.st, plain, ch, Lin.ZERO)) {
                  Lin v = (Lin) o.val;
                  r.add(v.isConst(-1) ? o : new Out(o.st, v.add(off), false));
                }
              }
              return r;
            }
            Lin d = ch.sub(g.ch);
            State x = s.withEq(d);
            if (x != null) {
              State some = x.withGe(g.n.add(-1));
              if (some != null) r.add(new Out(some, off, false));
              State none = x.withGe(g.n.neg());
              State ne = s.withNe(d);
              // continue with both kinds
              if (none != null) {
                List<Seg> tail = l.subList(l.indexOf(g) + 1, l.size());
                Lin o2 = off.add(g.n);
                for (Out o : indexOf(none, tail, ch, Lin.ZERO)) {
                  Lin v = (Lin) o.val;
                  r.add(v.isConst(-1) ? o : new Out(o.st, v.add(o2), false));
                }
              }
              s = ne;
            }
            break;
          }
        default:
          {
            if (g.base.fn.equals("NAT") && ch.isConst() && !natHas(g.base, ch.c.intValue())) break;
            boolean none = (g.base.fn.equals("HEXM") || g.base.fn.equals("HEXE")) && ch.isConst('p');
            if (!g.upper)
              for (Lin[] h : absences(s, g.base))
                none |= h[2].equals(ch) && s.facts.entailsGe(g.from.sub(h[0])) && s.facts.entailsGe(h[1].sub(g.to));
            if (none) break;
            TextV key = new TextV(Collections.singletonList(g), false);
            Lin has = Terms.bool("HAS", key, ch);
            State no = s.withEq(has);
            State yes = s.withEq(has.add(-1));
            if (yes != null) {
              Lin idx = Lin.of(T.of("IDX", "I", BigInteger.ZERO, BigInteger.valueOf(Terms.MAX_LEN), key, ch));
              State y = yes.withGe(g.len().sub(idx).add(-1));
              if (y != null && in.exactSearch) {
                Lin at = g.from.add(idx);
                for (State b : absent(y, g, g.from, at, ch)) {
                  Lin c = charOf(b, g.base, at);
                  for (Out u : g.upper ? upChar(b, c) : Out.ret(b, c)) {
                    State e = u.st.withEq(((Lin) u.val).sub(ch));
                    if (e != null) r.add(new Out(e, off.add(idx), false));
                  }
                }
                y = null;
              }
              if (y != null && g.upper) {
                for (Out u : upChar(y, charOf(y, g.base, g.from.add(idx)))) {
                  State e = u.st.withEq(((Lin) u.val).sub(ch));
                  if (e != null) r.add(new Out(e, off.add(idx), false));
                }
                y = null;
              }
              if (y != null) y = y.withEq(charOf(y, g.base, g.from.add(idx)).sub(ch));
              if (y != null) r.add(new Out(y, off.add(idx), false));
            }
            s = no;
            if (no != null && in.exactSearch) {
              List<Seg> tail = l.subList(l.indexOf(g) + 1, l.size());
              Lin o2 = off.add(g.len());
              for (State b : absent(no, g, g.from, g.to, ch))
                for (Out o : indexOf(b, tail, ch, Lin.ZERO)) {
                  Lin v = (Lin) o.val;
                  r.add(v.isConst(-1) ? o : new Out(o.st, v.add(o2), false));
                }
              return r;
            }
          }
      }
      off = off.add(g.len());
    }
    if (s != null) r.add(new Out(s, Lin.of(-1), false));
    return r;
  }

  /** The cases of a state in which no character of base[from..to) is ch, told apart by the characters already spoken of. */
  private List<State> absent(State st, Seg g, Lin from, Lin to, Lin ch) {
    Set<Lin> at = new LinkedHashSet<>();
    for (Lin[] ls : new Lin[][] {st.facts.ge, st.facts.eq, st.facts.ne})
      for (Lin l : ls) for (T t : l.atoms) if (t.fn.equals("CHAR") && t.args.get(0) == g.base) at.add((Lin) t.args.get(1));
    List<State> cur = new ArrayList<>();
    cur.add(st);
    for (Lin i : at) {
      List<State> nx = new ArrayList<>();
      for (State s : cur) {
        State lo = s.withGe(from.sub(i).add(-1));
        if (lo != null) nx.add(lo);
        State ge = s.withGe(i.sub(from));
        if (ge == null) continue;
        State hi = ge.withGe(i.sub(to));
        if (hi != null) nx.add(hi);
        State mid = ge.withGe(to.sub(i).add(-1));
        if (mid == null) continue;
        Lin c = Terms.charAt(g.base, i);
        for (Out u : g.upper ? upChar(mid, c) : Out.ret(mid, c)) {
          State e = u.st.withNe(((Lin) u.val).sub(ch));
          if (e != null) nx.add(e);
        }
      }
      cur = nx;
    }
    return cur;
  }

  private static boolean natHas(T nat, int ch) {
    int radix = ((Lin) nat.args.get(0)).c.intValue();
    int d = Character.digit(ch, 36);
    return d >= 0 && d < radix && !(ch >= 'A' && ch <= 'Z') && ch < 128;
  }

  // ---- text of values ------------------------------------------------------------------------

  /** Text of a character sequence value, null if unknown kind. */
  List<Seg> textOf(State st, Val v) {
    if (v instanceof TextV) return ((TextV) v).segs;
    if (v instanceof NullV) return Seg.lit("null");
    HObj h = in.obj(st, v);
    if (isText(h) || (h != null && h.cls.equals("[C"))) return h.text();
    if (v instanceof T) {
      T t = (T) v;
      String c = in.classOf(st, v);
      if (t.desc.equals(STR) || in.prog.isSub(c, "java/lang/CharSequence") || t.desc.equals("[C")) return Seg.whole(t);
    }
    return null;
  }

  /** Signed decimal text; splits on the sign when unknown. */
  List<Out> decimal(State st, Lin x) {
    if (st.facts.entailsGe(x)) return Out.ret(st, new TextV(Terms.nat(10, x), false));
    List<Out> r = new ArrayList<>();
    State p = st.withGe(x);
    if (p != null) r.add(new Out(p, new TextV(Terms.nat(10, x), false), false));
    State n = st.withGe(x.neg().add(-1));
    if (n != null) r.add(new Out(n, new TextV(Seg.concat(Seg.lit("-"), Terms.nat(10, x.neg())), false), false));
    return r;
  }

  List<Out> unsignedText(State st, Lin x, int bits, int radix) {
    List<Out> r = new ArrayList<>();
    for (Out o : unsignedSplit(st, x, bits)) r.add(new Out(o.st, new TextV(Terms.nat(radix, (Lin) o.val), false), false));
    return r;
  }

  List<Out> unsignedSplit(State st, Lin x, int bits) {
    List<Out> r = new ArrayList<>();
    BigInteger m = Terms.pow2(bits);
    boolean bounded = st.facts.entailsGe(x.add(Lin.of(m))) && st.facts.entailsGe(Lin.of(m).sub(x).add(-1));
    if (!bounded) return Out.ret(st, Terms.unsigned(x, bits, st.facts));
    State p = st.withGe(x);
    if (p != null) r.add(new Out(p, x, false));
    State n = st.withGe(x.neg().add(-1));
    if (n != null) r.add(new Out(n, x.add(Lin.of(m)), false));
    return r;
  }

  /** String.valueOf(Object) / toString(). Runs repository toString methods. */
  List<Out> toStringOf(State st, Val v, String where) {
    if (v instanceof NullV) return Out.ret(st, TextV.str("null"));
    if (v instanceof TextV) return Out.ret(st, new TextV(((TextV) v).segs, false));
    if (v instanceof BoxV) {
      BoxV b = (BoxV) v;
      switch (b.cls) {
        case "java/lang/Integer":
        case "java/lang/Long":
        case "java/lang/Short":
        case "java/lang/Byte":
          return decimal(st, Interp.lin(b.v));
        case "java/lang/Character":
          return Out.ret(st, new TextV(Seg.of(Seg.run(Interp.lin(b.v), Lin.ONE)), false));
        case "java/lang/Boolean":
          return boolText(st, Interp.lin(b.v));
        default:
          return Out.ret(st, new TextV(Seg.whole(T.of(b.cls.endsWith("Float") ? "Float.toString" : "Double.toString", STR, b.v)), false));
      }
    }
    if (v instanceof BigV) return decimal(st, ((BigV) v).v);
    HObj h = in.obj(st, v);
    if (isText(h)) return Out.ret(st, new TextV(h.text(), false));
    if (h != null && in.prog.isRepo(h.cls)) {
      Prog.M m = in.prog.resolve(h.cls, "toString", "()Ljava/lang/String;");
      if (m != null) return in.exec(m, Collections.singletonList(v), st);
      if (h.fields.containsKey("$name")) return Out.ret(st, h.fields.get("$name"));
    }
    if (v instanceof T) {
      List<Seg> s = textOf(st, v);
      if (s != null) return Out.ret(st, new TextV(s, false));
      return Out.ret(st, new TextV(Seg.whole(T.of("toString", STR, v)), false));
    }
    return Out.ret(st, new TextV(Seg.whole(T.of("?toString", STR, v)), false));
  }

  List<Out> boolText(State st, Lin b) {
    List<Out> r = new ArrayList<>();
    State t = st.withNe(b);
    if (t != null) r.add(new Out(t, TextV.str("true"), false));
    State f = st.withEq(b);
    if (f != null) r.add(new Out(f, TextV.str("false"), false));
    return r;
  }

  // ---- boxing --------------------------------------------------------------------------------

  static String boxClass(String d) {
    switch (d) {
      case "Z":
        return "java/lang/Boolean";
      case "C":
        return "java/lang/Character";
      case "B":
        return "java/lang/Byte";
      case "S":
        return "java/lang/Short";
      case "I":
        return "java/lang/Integer";
      case "J":
        return "java/lang/Long";
      case "F":
        return "java/lang/Float";
      default:
        return "java/lang/Double";
    }
  }

  static String unboxDesc(String cls) {
    switch (cls) {
      case "java/lang/Boolean":
        return "Z";
      case "java/lang/Character":
        return "C";
      case "java/lang/Byte":
        return "B";
      case "java/lang/Short":
        return "S";
      case "java/lang/Integer":
        return "I";
      case "java/lang/Long":
        return "J";
      case "java/lang/Float":
        return "F";
      case "java/lang/Double":
        return "D";
      default:
        return null;
    }
  }

  Val box(String desc, Val v) {
    // boxing an unboxed symbolic box gives the box back (identity is not modelled for boxes)
    return new BoxV(boxClass(desc), v);
  }

  Val unbox(State st, Val v, String desc) {
    if (v instanceof BoxV) return ((BoxV) v).v;
    if (v instanceof T) {
      T t = T.of("unbox", desc, v);
      return T.numeric(desc) ? Lin.of(t) : t;
    }
    throw new Undecided("unbox " + v);
  }

  // ---- unknown calls -------------------------------------------------------------------------

  private static final String[] PURE = {
    "java/math/", "java/time/", "java/lang/Math", "java/lang/String", "java/lang/Integer", "java/lang/Long",
    "java/lang/Short", "java/lang/Byte", "java/lang/Character", "java/lang/Boolean", "java/lang/Double", "java/lang/Float",
    "java/lang/Number", "java/lang/Class", "java/util/Date", "java/util/Calendar", "java/util/Base64",
    "java/util/Objects", "java/lang/CharSequence", "java/util/function/", "java/lang/Object", "java/lang/reflect/Array",
    "java/util/Arrays", "java/lang/Iterable", "java/util/Collection", "java/lang/System", "java/util/stream/", "java/lang/Comparable",
    "java/lang/Enum", "java/lang/Throwable", "java/lang/StrictMath"
  };

  static boolean isPure(String owner) {
    if (owner.equals("java/lang/StringBuilder") || owner.equals("java/lang/StringBuffer")) return false;
    for (String p : PURE) if (owner.startsWith(p)) return true;
    return false;
  }

  private static final String VOCAB = System.getProperty("fpv.vocab");

  private static void vocab(String s) {
    try {
      java.nio.file.Files.write(java.nio.file.Paths.get(VOCAB), (s + "\n").getBytes(), java.nio.file.StandardOpenOption.APPEND, java.nio.file.StandardOpenOption.CREATE);
    } catch (java.io.IOException e) {
      throw new java.io.UncheckedIOException(e);
    }
  }

  private boolean structured(State st, Val v) {
    if (v instanceof LamV) return true;
    HObj h = in.obj(st, v);
    return h != null && in.prog.isRepo(h.cls) && !h.fields.containsKey("$ordinal");
  }

  private static final Set<String> DECIDED = new HashSet<>(Arrays.asList("java/math/BigDecimal", "java/math/BigInteger", "java/lang/String"));

  List<Out> unknown(State st, String owner, String name, String desc, List<Val> args, boolean isStatic, String where) {
    Type rt = Type.getReturnType(desc);
    boolean repoIface = in.prog.isRepo(owner);
    boolean pure = repoIface || isPure(owner);
    // what a library method does with the program's own functions and objects is not known
    if (!repoIface) for (Val a : args) pure &= !structured(st, a);
    // questions about numbers and texts have answers the domains know more about
    if (DECIDED.contains(owner) && (rt.getSort() == Type.INT || rt.getSort() == Type.BOOLEAN) && !name.equals("hashCode")) pure = false;
    if (!pure) in.unmodelled.add(owner + "." + name + desc);
    else if (!repoIface && VOCAB != null) vocab(owner + "." + name);
    boolean any = !isStatic && args.get(0) instanceof T && ((T) args.get(0)).opaque;
    if (!repoIface) for (Val a : args) any |= structured(st, a);
    // it may do anything
    st.lossy |= any;
    String simple = owner.substring(owner.lastIndexOf('/') + 1);
    if (!isStatic && args.get(0) instanceof T) {
      // one name per method whatever interface it is reached through
      simple = "";
    }
    String fn = (pure ? "" : "?") + (simple.isEmpty() ? "." : simple + ".") + name;
    boolean mutableArg = false;
    for (int i = 0; i < args.size(); i++) {
      HObj h = in.obj(st, args.get(i));
      if (h != null && (isText(h) || isList(h) || h.cls.startsWith("["))) mutableArg = true;
    }
    if (mutableArg && !pure) {
      for (Val a : args) {
        HObj h = in.obj(st, a);
        if (isText(h)) in.put(st, a, h.withData(Seg.whole(T.of(T.freshName("?havoc"), STR))));
        else if (isList(h)) throw new Undecided("list passed to unmodelled " + owner + "." + name);
        else if (h != null && h.cls.equals("[C")) in.put(st, a, h.withData(Seg.whole(T.of(T.freshName("?havoc"), STR))));
      }
    }
    if (rt.getSort() == Type.VOID) {
      st.events.add(new Event("CALL:" + name, new ArrayList<>(args), where));
      return Out.ret(st, null);
    }
    List<Val> ta = new ArrayList<>();
    for (Val a : args) {
      HObj h = in.obj(st, a);
      if (h != null && isText(h)) ta.add(new TextV(h.text(), false));
      else if (h != null && h.cls.equals("[C")) ta.add(new TextV(h.text(), false));
      else ta.add(a);
    }
    String rd = rt.getDescriptor();
    T t = T.of(fn, rd, ta);
    if (fn.equals(".signum")) t = T.of(fn, rd, BigInteger.ONE.negate(), BigInteger.ONE, ta);
    return Out.ret(st, in.mk(rd, t));
  }

  Val jdkStatic(String owner, String name, String desc) {
    if (owner.equals("java/math/BigDecimal") || owner.equals("java/math/BigInteger")) {
      if (desc.equals(BDEC)) {
        if (name.equals("ZERO")) return bd(Lin.ZERO, Lin.ZERO);
        if (name.equals("ONE")) return bd(Lin.ONE, Lin.ZERO);
        if (name.equals("TEN")) return bd(Lin.of(10), Lin.ZERO);
      }
      if (desc.equals("Ljava/math/BigInteger;")) {
        if (name.equals("ZERO")) return new BigV(Lin.ZERO);
        if (name.equals("ONE")) return new BigV(Lin.ONE);
        if (name.equals("TEN")) return new BigV(Lin.of(10));
      }
    }
    if (name.equals("TYPE")) return new ClsV(unboxDesc(owner) == null ? owner : unboxDesc(owner));
    if (desc.equals("Z") && owner.equals("java/lang/Boolean")) return Lin.ZERO;
    Class<?> c = Prog.jdk(owner);
    if (c != null)
      try {
        java.lang.reflect.Field f = c.getField(name);
        if (f.getType() == int.class) return Lin.of(f.getInt(null));
        if (f.getType() == long.class) return Lin.of(f.getLong(null));
        if (f.getType() == double.class) return new DblV(f.getDouble(null), false);
        if (f.getType() == char.class) return Lin.of(f.getChar(null));
        if (owner.equals("java/lang/Boolean")) return new BoxV(owner, Lin.of(name.equals("TRUE") ? 1 : 0));
      } catch (ReflectiveOperationException e) {
        // symbolic below
      }
    return in.mk(desc, T.of(owner.substring(owner.lastIndexOf('/') + 1) + "." + name, desc));
  }

  List<Out> resolveCmp(State st, CmpV c) {
    if (c.kind != 'J') {
      return Out.ret(st, Lin.of(T.of("dcmp", "#", BigInteger.ONE.negate(), BigInteger.ONE, c.a, c.b)));
    }
    return cmp3(st, Interp.lin(c.a).sub(Interp.lin(c.b)));
  }

  List<Out> cmp3(State st, Lin d) {
    List<Out> r = new ArrayList<>();
    State a = st.withGe(d.neg().add(-1));
    if (a != null) r.add(new Out(a, Lin.of(-1), false));
    State b = st.withEq(d);
    if (b != null) r.add(new Out(b, Lin.ZERO, false));
    State c = st.withGe(d.add(-1));
    if (c != null) r.add(new Out(c, Lin.ONE, false));
    return r;
  }

  private List<Out> minmax(State st, Lin a, Lin b, boolean max) {
    List<Out> r = new ArrayList<>();
    State s1 = st.withGe(a.sub(b));
    if (s1 != null) r.add(new Out(s1, max ? a : b, false));
    State s2 = st.withGe(b.sub(a).add(-1));
    if (s2 != null) r.add(new Out(s2, max ? b : a, false));
    return r;
  }

  private List<Out> abs(State st, Lin a, int bits) {
    List<Out> r = new ArrayList<>();
    State p = st.withGe(a);
    if (p != null) r.add(new Out(p, a, false));
    Lin min = Lin.of(Terms.pow2(bits - 1).negate());
    State m = bits > 64 ? null : st.withEq(a.sub(min));
    if (m != null) r.add(new Out(m, min, false));
    State n = st.withGe(a.neg().add(-1));
    if (n != null && m != null) n = n.withNe(a.sub(min));
    if (n != null) r.add(new Out(n, a.neg(), false));
    return r;
  }

  private Out thr(State st, String cls, String where) {
    return in.raise(st, cls, where);
  }

  private List<Out> app(State st, Val sb, List<Seg> s) {
    HObj h = in.obj(st, sb);
    in.put(st, sb, h.withData(Seg.concat(h.text(), s)));
    return Out.ret(st, sb);
  }

  private List<Out> appAll(List<Out> texts, Val sb) {
    List<Out> r = new ArrayList<>();
    for (Out o : texts) {
      if (o.thrown) r.add(o);
      else r.addAll(app(o.st, sb, ((TextV) o.val).segs));
    }
    return r;
  }

  /** Exact-content equality of two texts: 1, 0, or a boolean atom. */
  Lin textEquals(State st, List<Seg> a, List<Seg> b) {
    String x = Seg.asLit(a), y = Seg.asLit(b);
    if (x != null && y != null) return Lin.of(x.equals(y) ? 1 : 0);
    int c = SegCmp.compare(a, b, st.facts).verdict;
    if (c == SegCmp.EQ) return Lin.ONE;
    if (c == SegCmp.NEQ) return Lin.ZERO;
    return Terms.bool("textEq", new TextV(a, false), new TextV(b, false));
  }

  // ---- the method table ----------------------------------------------------------------------

  List<Out> call(State st, int op, String owner, String name, String desc, List<Val> a, String where) {
    if (owner.startsWith("io/fastprintf/")) {
      if (owner.equals("io/fastprintf/util/Utils") && name.equals("lenientFormat"))
        return Out.ret(st, new TextV(Seg.whole(T.of(T.freshName("message"), STR)), false));
      if (in.modelAtoms && op != Opcodes.INVOKESTATIC && op != Opcodes.INVOKESPECIAL && a.get(0) instanceof TextV && ((TextV) a.get(0)).seq) {
        if (name.equals("append") || name.equals("prepend")) return in.exec(in.prog.resolve("io/fastprintf/seq/Seq", name, desc), a, st);
        if (name.equals("elementCount") || name.equals("isAtomic")) return Out.ret(st, Lin.ONE);
        List<Out> r = SeqModel.call(this, st, op, owner, name, desc, a, where);
        if (r != null) return r;
      }
      if (in.modelSeq) {
        List<Out> r = SeqModel.call(this, st, op, owner, name, desc, a, where);
        if (r != null) return r;
      }
      // methods of java.lang.Object / Enum / Throwable reached through repository types
      if (op != Opcodes.INVOKESTATIC && op != Opcodes.INVOKESPECIAL) {
        HObj h = in.obj(st, a.get(0));
        if (h != null && h.fields.containsKey("$ordinal") && in.prog.resolve(h.cls, name, desc) == null) return enumCall(st, h, a, name);
        if (name.equals("clone") && h != null && h.cls.startsWith("[")) return Out.ret(st, st.alloc(h));
        if (name.equals("getClass") && desc.startsWith("()")) return getClass(st, a.get(0));
        if (a.get(0) instanceof TextV) return text(st, a.get(0), ((TextV) a.get(0)).segs, name, desc, a, where);
        if (isIter(h)) return iter(st, a.get(0), h, name, where);
      }
      return null;
    }
    if (owner.startsWith("[")) {
      HObj h = in.obj(st, a.get(0));
      if (name.equals("clone") && h != null) return Out.ret(st, st.alloc(h));
      if (name.equals("getClass")) return getClass(st, a.get(0));
      return null;
    }
    if (op == Opcodes.INVOKESTATIC || !name.equals("<init>")) {
      List<Out> r = TimeModel.call(this, st, op, owner, name, desc, a, where);
      if (r != null) return r;
    }
    if (op == Opcodes.INVOKESTATIC) return statics(st, owner, name, desc, a, where);
    if (op == Opcodes.INVOKESPECIAL && name.equals("<init>")) return init(st, owner, desc, a, where);
    Val o = a.get(0);
    HObj h = in.obj(st, o);
    if (in.prog.isSub(owner, "java/lang/Throwable")) {
      if (name.equals("getMessage")) return Out.ret(st, h != null && h.fields.containsKey("$msg") ? h.fields.get("$msg") : new TextV(Seg.whole(T.of("message", STR, o)), false));
      if (name.equals("fillInStackTrace") || name.equals("initCause")) return Out.ret(st, o);
      if (name.equals("addSuppressed") || name.equals("printStackTrace")) return Out.ret(st, null);
      if (name.equals("getCause")) return Out.ret(st, h != null && h.fields.containsKey("$cause") ? h.fields.get("$cause") : T.of("nullable:cause", "Ljava/lang/Throwable;", o));
    }
    if (owner.equals("java/lang/invoke/MethodHandles$Lookup") && (name.equals("findVirtual") || name.equals("findStatic"))) {
      List<Out> r = new ArrayList<>();
      State s2 = st.fork(), s3 = st.fork();
      Val type = a.get(3);
      String md = type instanceof T && ((T) type).fn.equals("methodType") ? Seg.asLit(((TextV) ((T) type).args.get(0)).segs) : null;
      boolean exists = true;
      if (md != null && a.get(1) instanceof ClsV) {
        String target = ((ClsV) a.get(1)).name, method = Seg.asLit(textOf(st, a.get(2)));
        exists = in.exists(target, method, md);
        if (name.equals("findVirtual")) md = "(" + (target.startsWith("[") ? target : "L" + target + ";") + md.substring(1);
        if (exists) r.add(new Out(st, T.of("mh", "Ljava/lang/invoke/MethodHandle;", a.get(1), a.get(2), TextV.str(md)), false));
      } else r.add(new Out(st, T.of("mh", "Ljava/lang/invoke/MethodHandle;", a.get(1), a.get(2)), false));
      r.add(thr(s2, "java/lang/NoSuchMethodException", where));
      r.add(thr(s3, "java/lang/IllegalAccessException", where));
      return r;
    }
    if (owner.equals("java/lang/invoke/MethodHandle")) return methodHandle(st, (T) o, name, a, desc, where);
    if (modelledText(h)) {
      List<Out> r = builder(st, o, h, name, desc, a, where);
      if (r != null) return r;
    }
    if (o instanceof TextV) {
      if ((in.modelSeq || in.modelAtoms) && ((TextV) o).seq) {
        List<Out> r = SeqModel.call(this, st, op, owner, name, desc, a, where);
        if (r != null) return r;
      }
      List<Out> r = text(st, o, ((TextV) o).segs, name, desc, a, where);
      if (r != null) return r;
    }
    if (o instanceof T && ((T) o).desc.equals(STR) && ((T) o).fn.indexOf(':') < 0) {
      List<Out> r = text(st, o, Seg.whole((T) o), name, desc, a, where);
      if (r != null) return r;
    }
    if (isList(h)) return list(st, o, h, name, desc, a, where);
    if (isIter(h)) return iter(st, o, h, name, where);
    if (h != null && isMap(h.cls)) return map(st, o, h, name, desc, a, where);
    if (h != null && h.cls.equals("java/util/EnumSet")) return enumSet(st, o, h, name, desc, a, where);
    if (h != null && h.cls.equals("$EnumIter")) return enumIter(st, o, h, name, where);
    if (o instanceof BigV) {
      List<Out> r = big(st, (BigV) o, name, desc, a, where);
      if (r != null) return r;
    }
    if (o instanceof BoxV) {
      List<Out> r = boxCall(st, (BoxV) o, name, desc, a, where);
      if (r != null) return r;
    }
    if (o instanceof LamV) return null;
    if (h != null && h.fields.containsKey("$ordinal") && (in.prog.resolve(h.cls, name, desc) == null)) return enumCall(st, h, a, name);
    switch (name) {
      case "getClass":
        if (desc.startsWith("()")) return getClass(st, o);
        break;
      case "toString":
        if (desc.equals("()Ljava/lang/String;") && (h == null || !in.prog.isRepo(h.cls))) return toStringOf(st, o, where);
        break;
      case "intValue":
      case "longValue":
      case "shortValue":
      case "byteValue":
      case "charValue":
      case "booleanValue":
      case "doubleValue":
      case "floatValue":
        if (o instanceof T && unboxDesc(owner) != null) return unboxT(st, (T) o, unboxDesc(owner), name, desc);
        break;
      case "equals":
        if (o.equals(a.get(1))) return Out.ret(st, Lin.ONE);
        if (h != null && a.get(1) instanceof ObjV && !in.prog.isRepo(h.cls)) return Out.ret(st, Lin.of(o.equals(a.get(1)) ? 1 : 0));
        break;
      case "length":
      case "charAt":
      case "subSequence":
      case "isEmpty":
        if (o instanceof T && !in.prog.isRepo(in.classOf(st, o))) {
          List<Seg> s = textOf(st, o);
          if (s != null) return text(st, o, s, name, desc, a, where);
        }
        break;
      case "append":
        break;
      default:
    }
    if (owner.equals("java/math/BigDecimal") || in.classOf(st, o) != null && in.classOf(st, o).equals("java/math/BigDecimal")) {
      List<Out> r = bigDecimal(st, o, name, desc, a, where);
      if (r != null) return r;
    }
    if (owner.equals("java/lang/Class")) {
      if (name.equals("desiredAssertionStatus")) return Out.ret(st, Lin.ZERO);
      if (o instanceof ClsV) {
        String c = ((ClsV) o).name;
        if (name.equals("getName")) return Out.ret(st, TextV.str(c.length() == 1 ? Type.getType(c).getClassName() : c.replace('/', '.')));
        if (name.equals("isArray")) return Out.ret(st, Lin.of(c.startsWith("[") ? 1 : 0));
        if (name.equals("getComponentType") && c.startsWith("[")) return Out.ret(st, new ClsV(Prog.strip(c.substring(1))));
      }
    }
    if (owner.equals("java/lang/ThreadLocal")) return threadLocal(st, o, h, name, a, where);
    return null;
  }

  private boolean modelledText(HObj h) {
    return isText(h);
  }

  private List<Out> getClass(State st, Val o) {
    if (o instanceof T) {
      T t = (T) o;
      String c = in.classOf(st, o);
      if (in.prog.isFinal(c) || c.startsWith("[")) return Out.ret(st, new ClsV(c));
      return Out.ret(st, T.of("class", "Ljava/lang/Class;", t));
    }
    if (o instanceof TextV && ((TextV) o).seq) return Out.ret(st, T.of("class", "Ljava/lang/Class;", o));
    return Out.ret(st, new ClsV(in.classOf(st, o)));
  }

  private List<Out> unboxT(State st, T t, String d, String name, String desc) {
    String want = Type.getReturnType(desc).getDescriptor();
    Val v = unbox(st, t, d);
    if (want.equals(d)) return Out.ret(st, v);
    return convPrim(st, v, d, want);
  }

  List<Out> convPrim(State st, Val v, String from, String to) {
    if (from.equals(to)) return Out.ret(st, v);
    boolean ff = from.equals("F") || from.equals("D"), tf = to.equals("F") || to.equals("D");
    if (!ff && !tf) {
      int bits = to.equals("J") ? 64 : to.equals("I") ? 32 : to.equals("B") ? 8 : 16;
      return Out.ret(st, to.equals("C") ? Terms.unsigned(Interp.lin(v), 16, st.facts) : Terms.signed(Interp.lin(v), bits, st.facts));
    }
    if (!ff) return Out.ret(st, T.of(to.equals("D") ? "n2d" : "n2f", to, v));
    Val d = from.equals("F") ? Interp.f2d(v) : v;
    if (to.equals("D")) return Out.ret(st, d);
    if (to.equals("F")) return Out.ret(st, T.of("d2f", "F", d));
    if (to.equals("J")) return Out.ret(st, Lin.of(T.of("d2l", "J", d)));
    Lin i = Lin.of(T.of("d2i", "I", d));
    return Out.ret(st, to.equals("I") ? i : Terms.signed(i, to.equals("B") ? 8 : 16, st.facts));
  }

  private List<Out> enumCall(State st, HObj h, List<Val> a, String name) {
    switch (name) {
      case "ordinal":
        return Out.ret(st, h.fields.get("$ordinal"));
      case "name":
      case "toString":
        return Out.ret(st, h.fields.get("$name"));
      case "equals":
        return Out.ret(st, in.sameRef(st, a.get(0), a.get(1)));
      case "hashCode":
        return Out.ret(st, Lin.of(T.of("idhash", "I", a.get(0))));
      case "compareTo":
        {
          HObj g = in.obj(st, a.get(1));
          if (g == null) return null;
          return Out.ret(st, ((Lin) h.fields.get("$ordinal")).sub((Lin) g.fields.get("$ordinal")));
        }
      case "getClass":
      case "getDeclaringClass":
        return Out.ret(st, new ClsV(h.cls));
      default:
        return null;
    }
  }

  // ---- constructors --------------------------------------------------------------------------

  private List<Out> init(State st, String owner, String desc, List<Val> a, String where) {
    Val o = a.get(0);
    HObj h = in.obj(st, o);
    if (h == null) return null;
    if (owner.equals("java/lang/Object")) return Out.ret(st, null);
    if (owner.equals("java/lang/Enum")) {
      in.put(st, o, h.with("$name", a.get(1)).with("$ordinal", a.get(2)));
      return Out.ret(st, null);
    }
    if (in.prog.isSub(owner, "java/lang/Throwable")) {
      HObj n = h;
      Type[] ts = Type.getArgumentTypes(desc);
      for (int i = 0; i < ts.length; i++) {
        if (ts[i].getDescriptor().equals(STR)) n = n.with("$msg", a.get(i + 1));
        else if (ts[i].getSort() == Type.OBJECT && in.prog.isSub(ts[i].getInternalName(), "java/lang/Throwable")) n = n.with("$cause", a.get(i + 1));
      }
      in.put(st, o, n.with("$where", TextV.str(where)));
      return Out.ret(st, null);
    }
    if (owner.equals(SB) || owner.equals("java/lang/StringBuffer")) {
      switch (desc) {
        case "()V":
          return Out.ret(st, null);
        case "(I)V":
          {
            Lin n = Interp.lin(a.get(1));
            List<Out> r = new ArrayList<>();
            if (!st.facts.entailsGe(n)) {
              State bad = st.withGe(n.neg().add(-1));
              if (bad != null) r.add(thr(bad, "java/lang/NegativeArraySizeException", where));
              st = st.withGe(n);
              if (st == null) return r;
            }
            if (capacities) in.put(st, o, h.with("$cap", n));
            r.add(new Out(st, null, false));
            return r;
          }
        case "(Ljava/lang/String;)V":
        case "(Ljava/lang/CharSequence;)V":
          {
            List<Seg> s = textOf(st, a.get(1));
            if (s == null) return null;
            in.put(st, o, h.withData(s));
            return Out.ret(st, null);
          }
        default:
          return null;
      }
    }
    if (isMap(owner)) {
      if (desc.equals("()V") || desc.equals("(I)V") && st.facts.valueOf(Interp.lin(a.get(1))) != null || desc.equals("(Ljava/lang/Class;)V")) return Out.ret(st, null);
      HObj g = in.obj(st, a.get(1));
      if (g == null || !isMap(g.cls)) throw new Undecided("new " + owner + desc);
      in.put(st, o, h.withData(new ArrayList<>(g.list())));
      return Out.ret(st, null);
    }
    if (owner.equals("java/util/ArrayList") || owner.equals("java/util/ArrayDeque") || owner.equals("java/util/LinkedList")) {
      if (desc.equals("()V")) return Out.ret(st, null);
      if (desc.equals("(I)V")) {
        Lin n = Interp.lin(a.get(1));
        List<Out> r = new ArrayList<>();
        if (!owner.endsWith("Deque") && !st.facts.entailsGe(n)) {
          State bad = st.withGe(n.neg().add(-1));
          if (bad != null) r.add(thr(bad, "java/lang/IllegalArgumentException", where));
          st = st.withGe(n);
          if (st == null) return r;
        }
        r.add(new Out(st, null, false));
        return r;
      }
      HObj g = in.obj(st, a.get(1));
      if (isList(g) || (g != null && g.cls.equals("$List"))) {
        in.put(st, o, h.withData(new ArrayList<>(g.list())));
        return Out.ret(st, null);
      }
      throw new Undecided("collection copy");
    }
    if (owner.equals("java/math/BigDecimal") || owner.equals("java/math/MathContext") || owner.equals("java/math/BigInteger") || owner.equals("java/lang/String")) {
      // immutable values built by constructor: make the object an alias of a term
      if (owner.equals("java/math/BigDecimal") && desc.equals("(Ljava/math/BigInteger;ILjava/math/MathContext;)V") && deref(st, a.get(1)) instanceof BigV) {
        List<Out> l = roundTo(st, ((BigV) deref(st, a.get(1))).v, Interp.lin(a.get(2)), a.get(3));
        if (l != null) {
          List<Out> r = new ArrayList<>();
          for (Out x : l) {
            in.put(x.st, o, h.with("$alias", x.val));
            r.add(new Out(x.st, null, false));
          }
          return r;
        }
      }
      if (owner.equals("java/lang/String") && desc.startsWith("([C")) {
        // as String.valueOf
        List<Out> l = statics(st, owner, "valueOf", desc.replace(")V", ")" + STR), a.subList(1, a.size()), where);
        if (l != null) {
          List<Out> r = new ArrayList<>();
          for (Out x : l) {
            if (x.thrown) r.add(x);
            else {
              in.put(x.st, o, in.obj(x.st, o).with("$alias", x.val));
              r.add(new Out(x.st, null, false));
            }
          }
          return r;
        }
      }
      in.put(st, o, h.with("$alias", ctorTerm(st, owner, desc, a)));
      return Out.ret(st, null);
    }
    if (in.prog.isRepo(owner)) return null;
    // other library objects: keep the arguments
    HObj n = h;
    for (int i = 1; i < a.size(); i++) n = n.with("$arg" + i, a.get(i));
    in.put(st, o, n);
    if (!owner.equals("java/lang/ThreadLocal")) in.unmodelled.add(owner + ".<init>" + desc);
    return Out.ret(st, null);
  }

  private Val ctorTerm(State st, String owner, String desc, List<Val> a) {
    List<Val> args = new ArrayList<>();
    for (int i = 1; i < a.size(); i++) args.add(deref(st, a.get(i)));
    String simple = owner.substring(owner.lastIndexOf('/') + 1);
    if (owner.equals("java/lang/String")) {
      if (desc.equals("([C)V") && textOf(st, a.get(1)) != null) return new TextV(textOf(st, a.get(1)), false);
      if (desc.equals("(Ljava/lang/String;)V")) return a.get(1);
      return new TextV(Seg.whole(T.of("?newString", STR, args)), false);
    }
    if (owner.equals("java/math/BigDecimal") && desc.equals("(Ljava/math/BigInteger;I)V")) return T.of("BD", "Ljava/math/BigDecimal;", args);
    if (owner.equals("java/math/BigDecimal") && desc.equals("(Ljava/lang/String;)V") && textOf(st, a.get(1)) != null && Seg.asLit(textOf(st, a.get(1))) != null) {
      try {
        java.math.BigDecimal k = new java.math.BigDecimal(Seg.asLit(textOf(st, a.get(1))));
        return bd(Lin.of(k.unscaledValue()), Lin.of(k.scale()));
      } catch (NumberFormatException e) {
        // the term below
      }
    }
    if (owner.equals("java/math/BigDecimal") && desc.equals("(Ljava/math/BigInteger;)V")) return T.of("BD", BDEC, args.get(0), Lin.ZERO);
    return T.of("new" + simple, "L" + owner + ";", args);
  }

  /** Follows immutable objects to the term they stand for. */
  Val deref(State st, Val v) {
    HObj h = in.obj(st, v);
    if (h != null && h.fields.containsKey("$alias")) return h.fields.get("$alias");
    return v;
  }

  // ---- BigDecimal / BigInteger ---------------------------------------------------------------

  static final String BDEC = "Ljava/math/BigDecimal;";

  static T bd(Lin unscaled, Lin scale) {
    return T.of("BD", BDEC, new BigV(unscaled), scale);
  }

  /** Unscaled value and scale of a decimal. */
  static Lin unscaled(T t) {
    if (t.fn.equals("BD") && t.args.get(0) instanceof BigV) return ((BigV) t.args.get(0)).v;
    return Lin.of(T.of("unscaled", "#", (BigInteger) null, null, t));
  }

  static Lin scale(T t) {
    return t.fn.equals("BD") && t.args.get(1) instanceof Lin ? (Lin) t.args.get(1) : Lin.of(T.of("scale", "I", t));
  }

  /** u / 10^drop, rounded; u is not negative. */
  static Lin round10(Lin u, Lin drop, String mode) {
    return Lin.of(T.of("ROUND10:" + mode, "#", BigInteger.ZERO, null, u, drop));
  }

  static Lin div10(Lin u) {
    return Lin.of(T.of("DIV10", "#", BigInteger.ZERO, null, u));
  }

  private String mode(State st, Val v) {
    Val d = deref(st, v);
    return d instanceof T ? ((T) d).fn.substring(((T) d).fn.lastIndexOf('.') + 1) : "" + d;
  }

  /** The decimal with at most k digits, k > 0, as a MathContext of that precision rounds it. */
  private List<Out> roundTo(State st, Lin u, Lin s, Lin k, String mode) {
    List<Out> r = new ArrayList<>();
    State zero = st.withEq(u);
    if (zero != null) r.add(new Out(zero, bd(Lin.ZERO, s), false));
    State unlimited = st.withEq(k);
    unlimited = unlimited == null ? null : unlimited.withNe(u);
    if (unlimited != null) r.add(new Out(unlimited, bd(u, s), false));
    for (boolean neg : new boolean[] {false, true}) {
      State x = st.withGe(neg ? u.neg().add(-1) : u.add(-1));
      x = x == null ? null : x.withNe(k);
      if (x == null) continue;
      Lin m = neg ? u.neg() : u, drop = Seg.len(Terms.nat(10, m)).sub(k);
      State same = x.withGe(drop.neg());
      if (same != null) r.add(new Out(same, bd(u, s), false));
      State cut = x.withGe(drop.add(-1));
      if (cut == null) continue;
      Lin q = round10(m, drop, mode);
      if (!cut.assumeGe(q.add(-1))) continue;
      State plain = cut.withEq(Seg.len(Terms.nat(10, q)).sub(k));
      if (plain != null) r.add(new Out(plain, bd(neg ? q.neg() : q, s.sub(drop)), false));
      // 99.6 rounds to 100, which has a digit too many
      State carry = cut.withEq(Seg.len(Terms.nat(10, q)).sub(k).add(-1));
      if (carry != null && carry.assumeGe(div10(q).add(-1))) carry = carry.withEq(Seg.len(Terms.nat(10, div10(q))).sub(k));
      if (carry != null) r.add(new Out(carry, bd(neg ? div10(q).neg() : div10(q), s.sub(drop).add(-1)), false));
    }
    return r;
  }

  private List<Out> roundTo(State st, Lin u, Lin s, Val mc) {
    Val c = deref(st, mc);
    if (!(c instanceof T) || !((T) c).fn.equals("newMathContext")) return null;
    List<Val> x = ((T) c).args;
    return roundTo(st, u, s, Interp.lin(x.get(0)), x.size() > 1 ? mode(st, x.get(1)) : "HALF_UP");
  }

  private List<Out> bigDecimal(State st, Val o, String name, String desc, List<Val> a, String where) {
    Val v = deref(st, o);
    if (!(v instanceof T)) return null;
    T t = (T) v;
    Lin u = unscaled(t), s = scale(t);
    List<Val> d = new ArrayList<>();
    for (Val x : a) d.add(deref(st, x));
    List<Out> r = new ArrayList<>();
    switch (name) {
      case "abs":
        {
          if (a.size() > 1) break;
          State p = st.withGe(u), n = st.withGe(u.neg().add(-1));
          if (p != null) r.add(new Out(p, bd(u, s), false));
          if (n != null) r.add(new Out(n, bd(u.neg(), s), false));
          return r;
        }
      case "negate":
        return a.size() > 1 ? null : Out.ret(st, bd(u.neg(), s));
      case "unscaledValue":
        return Out.ret(st, new BigV(u));
      case "scale":
        return Out.ret(st, s);
      case "precision":
        {
          State z = st.withEq(u), p = st.withGe(u.add(-1)), n = st.withGe(u.neg().add(-1));
          if (z != null) r.add(new Out(z, Lin.ONE, false));
          if (p != null) r.add(new Out(p, Seg.len(Terms.nat(10, u)), false));
          if (n != null) r.add(new Out(n, Seg.len(Terms.nat(10, u.neg())), false));
          return r;
        }
      case "signum":
        return cmp3(st, u);
      case "round":
        return roundTo(st, u, s, a.get(1));
      case "setScale":
        {
          Lin n = Interp.lin(a.get(1));
          String mode = a.size() > 2 ? mode(st, a.get(2)) : "UNNECESSARY";
          State same = st.withEq(n.sub(s)), up = st.withGe(n.sub(s).add(-1)), down = st.withGe(s.sub(n).add(-1));
          if (same != null) r.add(new Out(same, bd(u, s), false));
          if (up != null) r.add(new Out(up, bd(Lin.of(T.of("SHIFT10", "#", (BigInteger) null, null, u, n.sub(s))), n), false));
          State p = down == null ? null : down.withGe(u), m = down == null ? null : down.withGe(u.neg().add(-1));
          if (p != null) r.add(new Out(p, bd(round10(u, s.sub(n), mode), n), false));
          if (m != null) r.add(new Out(m, bd(round10(u.neg(), s.sub(n), mode).neg(), n), false));
          return r;
        }
      case "compareTo":
        {
          // against a power of ten: by the position of the first digit
          if (!(d.get(1) instanceof T)) return null;
          Lin u2 = unscaled((T) d.get(1)), s2 = scale((T) d.get(1));
          if (u2.isConst(0)) return cmp3(st, u);
          if (!u2.isConst() || u2.c.signum() < 0) return null;
          boolean ten = u2.c.toString().matches("10*");
          State low = st.withGe(u.neg()), pos = st.withGe(u.add(-1));
          if (low != null) r.add(new Out(low, Lin.of(-1), false));
          if (pos == null) return r;
          Lin e = Seg.len(Terms.nat(10, u)).add(-u2.c.toString().length()).sub(s).add(s2);
          State lt = pos.withGe(e.neg().add(-1)), gt = pos.withGe(e.add(-1)), eq = pos.withEq(e);
          if (lt != null) r.add(new Out(lt, Lin.of(-1), false));
          if (gt != null) r.add(new Out(gt, Lin.ONE, false));
          if (eq != null && ten) r.addAll(split(eq, Lin.ONE.sub(Terms.bool("power-of-ten", new BigV(u)))));
          else if (eq != null) r.add(new Out(eq, Lin.of(T.of(".compareTo", "I", BigInteger.ONE.negate(), BigInteger.ONE, t, (T) d.get(1))), false));
          return r;
        }
      case "equals":
        {
          if (!(d.get(1) instanceof T) || !((T) d.get(1)).fn.equals("BD")) return null;
          for (Out x : boolSplit(st, u.sub(unscaled((T) d.get(1))))) {
            if (((Lin) x.val).isConst(0)) r.add(x);
            else r.addAll(boolSplit(x.st, s.sub(scale((T) d.get(1)))));
          }
          return r;
        }
      case "toBigInteger":
        return Out.ret(st, new BigV(Lin.of(T.of("BDtoBigInteger", "#", (BigInteger) null, (BigInteger) null, t))));
      default:
    }
    return null;
  }

  private List<Out> big(State st, BigV b, String name, String desc, List<Val> a, String where) {
    Lin v = b.v;
    switch (name) {
      case "abs":
        {
          List<Out> r = new ArrayList<>();
          State p = st.withGe(v);
          if (p != null) r.add(new Out(p, b, false));
          State n = st.withGe(v.neg().add(-1));
          if (n != null) r.add(new Out(n, new BigV(v.neg()), false));
          return r;
        }
      case "negate":
        return Out.ret(st, new BigV(v.neg()));
      case "bitLength":
        {
          // by the sizes of int and long
          List<Out> r = new ArrayList<>();
          for (int[] c : new int[][] {{0, 31}, {32, 63}, {64, Integer.MAX_VALUE}}) {
            BigInteger lo = c[0] == 0 ? null : BigInteger.ONE.shiftLeft(c[0] - 1), hi = c[1] > 63 ? null : BigInteger.ONE.shiftLeft(c[1]);
            Lin n = Lin.of(T.of("bitLength" + c[1], "#", BigInteger.valueOf(c[0]), BigInteger.valueOf(c[1]), new BigV(v)));
            State p = st.withGe(lo == null ? v : v.sub(Lin.of(lo))), m = st.withGe(v.neg().sub(Lin.of(lo == null ? BigInteger.ONE : lo.add(BigInteger.ONE))));
            if (p != null && hi != null) p = p.withGe(Lin.of(hi.subtract(BigInteger.ONE)).sub(v));
            if (m != null && hi != null) m = m.withGe(v.add(Lin.of(hi)));
            if (p != null) r.add(new Out(p, n, false));
            if (m != null) r.add(new Out(m, n, false));
          }
          return r;
        }
      case "signum":
        return cmp3(st, v);
      case "add":
      case "subtract":
        if (a.get(1) instanceof BigV) {
          Lin w = ((BigV) a.get(1)).v;
          return Out.ret(st, new BigV(name.equals("add") ? v.add(w) : v.sub(w)));
        }
        return null;
      case "toString":
        if (desc.equals("()Ljava/lang/String;")) return decimal(st, v);
        {
          Lin radix = Interp.lin(a.get(1));
          if (!radix.isConst()) return null;
          int rx = radix.c.intValue();
          if (st.facts.entailsGe(v)) return Out.ret(st, new TextV(Terms.nat(rx, v), false));
          List<Out> r = new ArrayList<>();
          State p = st.withGe(v);
          if (p != null) r.add(new Out(p, new TextV(Terms.nat(rx, v), false), false));
          State n = st.withGe(v.neg().add(-1));
          if (n != null) r.add(new Out(n, new TextV(Seg.concat(Seg.lit("-"), Terms.nat(rx, v.neg())), false), false));
          return r;
        }
      case "intValue":
        return Out.ret(st, Terms.signed(v, 32, st.facts));
      case "longValue":
        return Out.ret(st, Terms.signed(v, 64, st.facts));
      case "compareTo":
        if (a.get(1) instanceof BigV) return cmp3(st, v.sub(((BigV) a.get(1)).v));
        return null;
      case "equals":
        if (a.get(1) instanceof BigV) return boolSplit(st, v.sub(((BigV) a.get(1)).v));
        return null;
      default:
        return null;
    }
  }

  /** 1 if l == 0 else 0, splitting. */
  List<Out> boolSplit(State st, Lin l) {
    List<Out> r = new ArrayList<>();
    State y = st.withEq(l);
    if (y != null) r.add(new Out(y, Lin.ONE, false));
    State n = st.withNe(l);
    if (n != null) r.add(new Out(n, Lin.ZERO, false));
    return r;
  }

  private List<Out> boxCall(State st, BoxV b, String name, String desc, List<Val> a, String where) {
    String d = unboxDesc(b.cls);
    switch (name) {
      case "intValue":
      case "longValue":
      case "shortValue":
      case "byteValue":
      case "doubleValue":
      case "floatValue":
      case "charValue":
      case "booleanValue":
        return convPrim(st, b.v, d, Type.getReturnType(desc).getDescriptor());
      case "toString":
        return toStringOf(st, b, where);
      case "getClass":
        return Out.ret(st, new ClsV(b.cls));
      case "equals":
        if (a.get(1) instanceof BoxV) {
          BoxV c = (BoxV) a.get(1);
          if (!c.cls.equals(b.cls)) return Out.ret(st, Lin.ZERO);
          if (b.v instanceof Lin && c.v instanceof Lin) return boolSplit(st, ((Lin) b.v).sub((Lin) c.v));
        }
        return null;
      default:
        return null;
    }
  }

  // ---- thread locals -------------------------------------------------------------------------

  private List<Out> threadLocal(State st, Val o, HObj h, String name, List<Val> a, String where) {
    if (h == null) return null;
    if (name.equals("set")) {
      in.put(st, o, h.with("$val", a.get(1)));
      st.events.add(new Event("TLSET", Arrays.asList(o, a.get(1)), where));
      return Out.ret(st, null);
    }
    if (name.equals("remove")) {
      Map<String, Val> f = new LinkedHashMap<>(h.fields);
      f.remove("$val");
      in.put(st, o, new HObj(h.cls, f, h.data, h.len));
      return Out.ret(st, null);
    }
    if (name.equals("get")) {
      Val v = h.fields.get("$val");
      if (v != null) return Out.ret(st, v);
      Val sup = h.fields.get("$init");
      List<Out> r = new ArrayList<>();
      if (sup instanceof LamV) {
        for (Out x : in.callLambda(st, (LamV) sup, Collections.emptyList(), where)) {
          if (x.thrown) {
            r.add(x);
            continue;
          }
          in.put(x.st, o, in.obj(x.st, o).with("$val", x.val));
          r.add(x);
        }
        return r;
      }
      Prog.M init = in.prog.isRepo(h.cls) ? in.prog.resolve(h.cls, "initialValue", "()Ljava/lang/Object;") : null;
      if (init != null) {
        for (Out x : in.exec(init, Collections.singletonList(o), st)) {
          if (!x.thrown) in.put(x.st, o, in.obj(x.st, o).with("$val", x.val));
          r.add(x);
        }
        return r;
      }
      return Out.ret(st, NullV.NULL);
    }
    return null;
  }

  // ---- StringBuilder and Appendable ----------------------------------------------------------

  /** The capacity of a builder: at least the length, the capacity it had before and what was asked for. */
  private static Lin grown(State st, HObj h, Lin least) {
    Lin c = Lin.of(T.of(T.freshName("capacity"), "I", BigInteger.ZERO, T.INT_MAX));
    st.assumeGe(c.sub(Seg.len(h.text())));
    st.assumeGe(c.sub(least));
    if (h.fields.get("$cap") instanceof Lin) st.assumeGe(c.sub((Lin) h.fields.get("$cap")));
    return c;
  }

  private List<Out> builder(State st, Val o, HObj h, String name, String desc, List<Val> a, String where) {
    boolean sink = h.cls.equals("$Appendable");
    switch (name) {
      case "append":
        {
          if (sink && ioThrows)
            for (Event e : new ArrayList<>(st.events)) if (e.kind.equals("IOERROR")) st.events.add(new Event("AGAIN", Collections.emptyList(), where));
          if (sink && ioThrows && !st.facts.entailsEq(Terms.bool("ioOk").add(-1))) {
            State bad = st.fork();
            List<Out> r = new ArrayList<>();
            bad.events.add(new Event("IOERROR", Collections.emptyList(), where));
            r.add(thr(bad, "java/io/IOException", where));
            r.addAll(append(st, o, h, desc, a, where));
            return r;
          }
          return append(st, o, h, desc, a, where);
        }
      case "appendCodePoint":
        {
          Lin c = Interp.lin(a.get(1));
          if (st.facts.entailsGe(c) && st.facts.entailsGe(Lin.of(65535).sub(c))) return app(st, o, Seg.of(Seg.run(c, Lin.ONE)));
          throw new Undecided("appendCodePoint of a supplementary character");
        }
      case "repeat":
        return app(st, o, Seg.of(Seg.run(Interp.lin(a.get(1)), Interp.lin(a.get(2)))));
      case "toString":
        return Out.ret(st, new TextV(h.text(), false));
      case "length":
        return Out.ret(st, Seg.len(h.text()));
      case "capacity":
        {
          Lin c = grown(st, h, Lin.ZERO);
          if (capacities) in.put(st, o, h.with("$cap", c));
          return Out.ret(st, c);
        }
      case "ensureCapacity":
        if (capacities) in.put(st, o, h.with("$cap", grown(st, h, Interp.lin(a.get(1)))));
        return Out.ret(st, null);
      case "trimToSize":
        if (capacities) in.put(st, o, h.with("$cap", Lin.ZERO));
        return Out.ret(st, null);
      case "setLength":
        {
          Lin n = Interp.lin(a.get(1));
          List<Out> r = new ArrayList<>();
          Lin len = Seg.len(h.text());
          if (!st.facts.entailsGe(n)) {
            State bad = st.withGe(n.neg().add(-1));
            if (bad != null) r.add(thr(bad, IOOBE, where));
            st = st.withGe(n);
            if (st == null) return r;
          }
          State shrink = st.withGe(len.sub(n));
          if (shrink != null)
            for (Cutting c : cutAt(shrink, h.text(), n)) {
              in.put(c.st, o, h.withData(c.left));
              r.add(new Out(c.st, null, false));
            }
          State grow = st.withGe(n.sub(len).add(-1));
          if (grow != null) {
            in.put(grow, o, h.withData(Seg.concat(h.text(), Seg.of(Seg.run(Lin.ZERO, n.sub(len))))));
            r.add(new Out(grow, null, false));
          }
          return r;
        }
      case "charAt":
        return charAtChecked(st, h.text(), Interp.lin(a.get(1)), IOOBE, where);
      case "setCharAt":
        {
          Lin i = Interp.lin(a.get(1));
          List<Out> r = new ArrayList<>();
          for (Out ok : bounds(st, i, Seg.len(h.text()), IOOBE, where, r))
            for (Cutting c : cutAt(ok.st, h.text(), i))
              for (Cutting d : cutAt(c.st, c.right, Lin.ONE)) {
                in.put(d.st, o, h.withData(Seg.concat(Seg.concat(c.left, Seg.of(Seg.run(Interp.lin(a.get(2)), Lin.ONE))), d.right)));
                r.add(new Out(d.st, null, false));
              }
          return r;
        }
      case "insert":
        {
          List<Out> r = new ArrayList<>();
          Lin i = Interp.lin(a.get(1));
          Lin len = Seg.len(h.text());
          State s = st;
          for (Lin c : new Lin[] {i, len.sub(i)}) {
            if (s.facts.entailsGe(c)) continue;
            State bad = s.withGe(c.neg().add(-1));
            if (bad != null) r.add(thr(bad, IOOBE, where));
            s = s.withGe(c);
            if (s == null) return r;
          }
          for (Out x : valueText(s, Type.getArgumentTypes(desc)[1], a.get(2), where))
            if (x.thrown) r.add(x);
            else
              for (Cutting c : cutAt(x.st, h.text(), i)) {
                in.put(c.st, o, h.withData(Seg.concat(Seg.concat(c.left, ((TextV) x.val).segs), c.right)));
                r.add(new Out(c.st, o, false));
              }
          return r;
        }
      case "deleteCharAt":
      case "delete":
        {
          Lin from = Interp.lin(a.get(1)), to = name.equals("delete") ? Interp.lin(a.get(2)) : from.add(1);
          List<Out> r = new ArrayList<>();
          State s = st;
          Lin len = Seg.len(h.text());
          List<State> todo = new ArrayList<>();
          Lin[] conds = name.equals("delete") ? new Lin[] {from, to.sub(from), len.sub(from)} : new Lin[] {from, len.sub(to)};
          for (Lin c : conds) {
            if (s.facts.entailsGe(c)) continue;
            State bad = s.withGe(c.neg().add(-1));
            if (bad != null) r.add(thr(bad, IOOBE, where));
            s = s.withGe(c);
            if (s == null) return r;
          }
          State clip = name.equals("delete") ? s.withGe(to.sub(len).add(-1)) : null;
          if (clip != null)
            for (Cutting c : cutAt(clip, h.text(), from)) {
              in.put(c.st, o, h.withData(c.left));
              r.add(new Out(c.st, o, false));
            }
          State in2 = clip == null ? s : s.withGe(len.sub(to));
          if (in2 != null)
            for (Cutting c : cutAt(in2, h.text(), from))
              for (Cutting d : cutAt(c.st, c.right, to.sub(from))) {
                in.put(d.st, o, h.withData(Seg.concat(c.left, d.right)));
                r.add(new Out(d.st, o, false));
              }
          return r;
        }
      case "substring":
      case "subSequence":
      case "indexOf":
      case "isEmpty":
        return text(st, o, h.text(), name, desc, a, where);
      case "getChars":
        return text(st, o, h.text(), name, desc, a, where);
      case "equals":
      case "hashCode":
        return Out.ret(st, name.equals("equals") ? in.sameRef(st, o, a.get(1)) : Lin.of(T.of("idhash", "I", o)));
      case "getClass":
        return Out.ret(st, new ClsV(h.cls));
      default:
        return null;
    }
  }

  /** Text appended by append/insert/valueOf for an argument of the static type. */
  List<Out> valueText(State st, Type t, Val v, String where) {
    switch (t.getDescriptor()) {
      case "C":
        return Out.ret(st, new TextV(Seg.of(Seg.run(Interp.lin(v), Lin.ONE)), false));
      case "I":
      case "J":
      case "S":
      case "B":
        return decimal(st, Interp.lin(v));
      case "Z":
        return boolText(st, Interp.lin(v));
      case "F":
        return Out.ret(st, new TextV(Seg.whole(T.of("Float.toString", STR, v)), false));
      case "D":
        return Out.ret(st, new TextV(Seg.whole(T.of("Double.toString", STR, v)), false));
      case "[C":
        {
          List<Seg> s = textOf(st, v);
          if (v instanceof NullV) return Collections.singletonList(thr(st, "java/lang/NullPointerException", where));
          if (s == null) throw new Undecided("append char[]");
          return Out.ret(st, new TextV(s, false));
        }
      default:
        {
          // nullable text arguments print "null"
          T rt = in.refTerm(v);
          if (rt != null && in.nullness(st, v) == 0) {
            List<Out> r = new ArrayList<>();
            State nul = st.fork();
            nul.refs.put(rt, nul.info(rt).isNull());
            r.add(new Out(nul, TextV.str("null"), false));
            st.refs.put(rt, st.info(rt).nonNull());
            r.addAll(toStringOf(st, v, where));
            return r;
          }
          if (rt != null && in.nullness(st, v) == 2) return Out.ret(st, TextV.str("null"));
          List<Seg> s = textOf(st, v);
          if (s != null) return Out.ret(st, new TextV(s, false));
          return toStringOf(st, v, where);
        }
    }
  }

  private List<Out> append(State st, Val o, HObj h, String desc, List<Val> a, String where) {
    Type[] ts = Type.getArgumentTypes(desc);
    if (ts.length == 1) return appAll(valueText(st, ts[0], a.get(1), where), o);
    // (CharSequence|char[], int, int)
    List<Out> r = new ArrayList<>();
    Lin x = Interp.lin(a.get(2)), y = Interp.lin(a.get(3));
    boolean arr = ts[0].getDescriptor().equals("[C");
    for (Out t : arr ? Out.ret(st, new TextV(textOf(st, a.get(1)), false)) : valueText(st, ts[0], a.get(1), where)) {
      if (t.thrown) {
        r.add(t);
        continue;
      }
      for (Out s : slice(t.st, ((TextV) t.val).segs, x, arr ? x.add(y) : y, false, "java/lang/IndexOutOfBoundsException", where)) {
        if (s.thrown) r.add(s);
        else r.addAll(app(s.st, o, ((TextV) s.val).segs));
      }
    }
    return r;
  }

  // ---- String / CharSequence -----------------------------------------------------------------

  List<Out> text(State st, Val o, List<Seg> s, String name, String desc, List<Val> a, String where) {
    switch (name) {
      case "length":
        return Out.ret(st, Seg.len(s));
      case "isEmpty":
        return boolSplit(st, Seg.len(s));
      case "charAt":
        return charAtChecked(st, s, Interp.lin(a.get(1)), IOOBE, where);
      case "toString":
      case "intern":
        return Out.ret(st, new TextV(s, false));
      case "substring":
      case "subSequence":
        return slice(st, s, Interp.lin(a.get(1)), a.size() > 2 ? Interp.lin(a.get(2)) : Seg.len(s), false, IOOBE, where);
      case "indexOf":
        if (desc.startsWith("(I") || desc.startsWith("(C")) return indexOf(st, s, Interp.lin(a.get(1)), a.size() > 2 ? Interp.lin(a.get(2)) : Lin.ZERO);
        {
          List<Seg> n = textOf(st, a.get(1));
          String nl = n == null ? null : Seg.asLit(n), sl = Seg.asLit(s);
          if (nl != null && nl.length() == 1) return indexOf(st, s, Lin.of(nl.charAt(0)), a.size() > 2 ? Interp.lin(a.get(2)) : Lin.ZERO);
          if (nl != null && sl != null && (a.size() < 3 || Interp.lin(a.get(2)).isConst()))
            return Out.ret(st, Lin.of(sl.indexOf(nl, a.size() > 2 ? Interp.lin(a.get(2)).c.intValue() : 0)));
          return null;
        }
      case "toCharArray":
        return Out.ret(st, st.alloc(new HObj("[C", Collections.emptyMap(), s, null)));
      case "concat":
        {
          List<Seg> t = textOf(st, a.get(1));
          return t == null ? null : Out.ret(st, new TextV(Seg.concat(s, t), false));
        }
      case "equals":
        {
          Val b = a.get(1);
          if (b instanceof NullV) return Out.ret(st, Lin.ZERO);
          if (!(b instanceof TextV) && !(b instanceof T && ((T) b).desc.equals(STR))) return null;
          return split(st, textEquals(st, s, textOf(st, b)));
        }
      case "startsWith":
      case "endsWith":
        {
          if (a.size() > 2) return null;
          List<Seg> p = textOf(st, a.get(1));
          String pl = p == null ? null : Seg.asLit(p);
          if (pl == null) return null;
          Lin len = Seg.len(s);
          List<Out> r = new ArrayList<>();
          State sh = st.withGe(Lin.of(pl.length() - 1).sub(len));
          if (sh != null) r.add(new Out(sh, Lin.ZERO, false));
          State lg = st.withGe(len.add(-pl.length()));
          if (lg != null) {
            Lin at = name.equals("startsWith") ? Lin.ZERO : len.add(-pl.length());
            List<State> cur = new ArrayList<>();
            cur.add(lg);
            for (int k = 0; k < pl.length(); k++) {
              List<State> nx = new ArrayList<>();
              for (State c : cur)
                for (Out x : charAt(c, s, at.add(k))) {
                  Lin d = ((Lin) x.val).add(-pl.charAt(k));
                  State e = x.st.withEq(d);
                  if (e != null) nx.add(e);
                  State n = x.st.withNe(d);
                  if (n != null) r.add(new Out(n, Lin.ZERO, false));
                }
              cur = nx;
            }
            for (State c : cur) r.add(new Out(c, Lin.ONE, false));
          }
          return r;
        }
      case "hashCode":
        {
          String l = Seg.asLit(s);
          if (l != null) return Out.ret(st, Lin.of(l.hashCode()));
          return Out.ret(st, Lin.of(T.of("hashCode", "I", new TextV(s, false))));
        }
      case "getChars":
        {
          // (srcBegin, srcEnd, dst, dstBegin)
          Lin b = Interp.lin(a.get(1)), e = Interp.lin(a.get(2)), d = Interp.lin(a.get(4));
          return copyInto(st, s, b, e.sub(b), a.get(3), d, where);
        }
      case "getClass":
        return Out.ret(st, new ClsV("java/lang/String"));
      case "isBlank":
        return null;
      case "toUpperCase":
      case "toLowerCase":
        {
          T t = in.refTerm(new TextV(s, false));
          String fn = "String." + name + (desc.startsWith("()") ? ":defaultLocale" : "");
          String l = Seg.asLit(s);
          List<Val> args = new ArrayList<>();
          args.add(new TextV(s, false));
          if (a.size() > 1) args.add(a.get(1));
          return Out.ret(st, new TextV(Seg.whole(T.of(fn, STR, args)), false));
        }
      case "lastIndexOf":
        return null;
      default:
        return null;
    }
  }

  List<Out> split(State st, Lin bool) {
    if (bool.isConst()) return Out.ret(st, bool);
    List<Out> r = new ArrayList<>();
    State t = st.withEq(bool.add(-1));
    if (t != null) r.add(new Out(t, Lin.ONE, false));
    State f = st.withEq(bool);
    if (f != null) r.add(new Out(f, Lin.ZERO, false));
    return r;
  }

  List<Out> copyInto(State st, List<Seg> src, Lin from, Lin n, Val dst, Lin at, String where) {
    List<Out> r = new ArrayList<>();
    HObj h = in.obj(st, dst);
    if (h == null || !h.cls.equals("[C")) throw new Undecided("copy into " + dst);
    Lin dl = Seg.len(h.text());
    State s = st;
    for (Lin c : new Lin[] {at, n, dl.sub(at).sub(n)}) {
      if (s.facts.entailsGe(c)) continue;
      State bad = s.withGe(c.neg().add(-1));
      if (bad != null) r.add(thr(bad, AIOOBE, where));
      s = s.withGe(c);
      if (s == null) return r;
    }
    for (Out x : slice(s, src, from, from.add(n), false, AIOOBE, where)) {
      if (x.thrown) {
        r.add(x);
        continue;
      }
      for (Cutting a : cutAt(x.st, h.text(), at))
        for (Cutting b : cutAt(a.st, a.right, n)) {
          in.put(b.st, dst, h.withData(Seg.concat(Seg.concat(a.left, ((TextV) x.val).segs), b.right)));
          r.add(new Out(b.st, null, false));
        }
    }
    return r;
  }

  // ---- lists and iterators -------------------------------------------------------------------

  private static boolean isIter(HObj h) {
    return h != null && h.cls.equals("$Iter");
  }

  private List<Out> list(State st, Val o, HObj h, String name, String desc, List<Val> a, String where) {
    List<Val> l = h.list();
    boolean rest = l.contains(REST);
    switch (name) {
      case "add":
      case "addLast":
      case "offer":
      case "offerLast":
        if (desc.startsWith("(I")) break;
        {
          List<Val> n = new ArrayList<>(l);
          n.add(a.get(1));
          in.put(st, o, h.withData(n));
          return Out.ret(st, desc.endsWith("V") ? null : Lin.ONE);
        }
      case "push":
      case "addFirst":
      case "offerFirst":
        {
          List<Val> n = new ArrayList<>(l);
          n.add(0, a.get(1));
          in.put(st, o, h.withData(n));
          return Out.ret(st, desc.endsWith("V") ? null : Lin.ONE);
        }
      case "pop":
      case "poll":
      case "pollFirst":
      case "removeFirst":
      case "remove":
        if (a.size() > 1) break;
        if (l.isEmpty()) return name.startsWith("poll") ? Out.ret(st, NullV.NULL) : Collections.singletonList(thr(st, "java/util/NoSuchElementException", where));
        {
          List<Val> n = new ArrayList<>(l);
          Val v = n.remove(0);
          in.put(st, o, h.withData(n));
          return Out.ret(st, v);
        }
      case "pollLast":
      case "removeLast":
        if (l.isEmpty()) return name.startsWith("poll") ? Out.ret(st, NullV.NULL) : Collections.singletonList(thr(st, "java/util/NoSuchElementException", where));
        {
          List<Val> n = new ArrayList<>(l);
          Val v = n.remove(n.size() - 1);
          in.put(st, o, h.withData(n));
          return Out.ret(st, v);
        }
      case "peek":
      case "peekFirst":
        return Out.ret(st, l.isEmpty() ? NullV.NULL : l.get(0));
      case "isEmpty":
        if (rest) break;
        return Out.ret(st, Lin.of(l.isEmpty() ? 1 : 0));
      case "size":
        if (rest) return Out.ret(st, Lin.of(T.of("?size", "I", BigInteger.ZERO, BigInteger.valueOf(Terms.MAX_LEN))));
        return Out.ret(st, Lin.of(l.size()));
      case "get":
      case "set":
        {
          BigInteger i = st.facts.valueOf(Interp.lin(a.get(1)));
          if (i == null || rest) break;
          if (i.signum() < 0 || i.intValue() >= l.size()) return Collections.singletonList(thr(st, "java/lang/IndexOutOfBoundsException", where));
          if (name.equals("get")) return Out.ret(st, l.get(i.intValue()));
          List<Val> n = new ArrayList<>(l);
          Val old = n.set(i.intValue(), a.get(2));
          in.put(st, o, h.withData(n));
          return Out.ret(st, old);
        }
      case "clear":
        in.put(st, o, h.withData(Collections.<Val>emptyList()));
        return Out.ret(st, null);
      case "iterator":
        {
          Map<String, Val> f = new LinkedHashMap<>();
          f.put("$list", o);
          f.put("$pos", Lin.ZERO);
          return Out.ret(st, st.alloc(new HObj("$Iter", f, null, null)));
        }
      case "toArray":
        if (rest) break;
        {
          HObj arr = a.size() > 1 ? in.obj(st, a.get(1)) : null;
          String cls = arr != null ? arr.cls : "[Ljava/lang/Object;";
          if (arr != null && arr.data != null && arr.list().size() >= l.size() && !l.isEmpty()) {
            List<Val> n = new ArrayList<>(arr.list());
            for (int i = 0; i < l.size(); i++) n.set(i, l.get(i));
            in.put(st, a.get(1), arr.withData(n));
            return Out.ret(st, a.get(1));
          }
          return Out.ret(st, st.alloc(new HObj(cls, Collections.emptyMap(), new ArrayList<>(l), null)));
        }
      case "forEach":
        if (rest) break;
        {
          List<State> cur = new ArrayList<>();
          cur.add(st);
          List<Out> r = new ArrayList<>();
          for (Val v : l) {
            List<State> nx = new ArrayList<>();
            for (State s : cur)
              for (Out x : in.invoke(s, Opcodes.INVOKEINTERFACE, "java/util/function/Consumer", "accept", "(Ljava/lang/Object;)V", Arrays.asList(a.get(1), v), where)) {
                if (x.thrown) r.add(x);
                else nx.add(x.st);
              }
            cur = nx;
          }
          for (State s : cur) r.add(new Out(s, null, false));
          return r;
        }
      case "ensureCapacity":
      case "trimToSize":
        return Out.ret(st, null);
      case "hashCode":
      case "equals":
      case "toString":
      case "stream":
        return null;
      default:
    }
    throw new Undecided("list." + name);
  }

  /** Marks an unknown number of earlier elements of a list (after loop summarisation). */
  static final T REST = T.of("...", "Ljava/lang/Object;");

  private List<Out> iter(State st, Val o, HObj h, String name, String where) {
    HObj lh = in.obj(st, h.fields.get("$list"));
    List<Val> l = lh.list();
    if (l.contains(REST)) throw new Undecided("iteration over a summarised list");
    int p = ((Lin) h.fields.get("$pos")).c.intValue();
    if (name.equals("hasNext")) return Out.ret(st, Lin.of(p < l.size() ? 1 : 0));
    if (name.equals("next")) {
      if (p >= l.size()) return Collections.singletonList(thr(st, "java/util/NoSuchElementException", where));
      in.put(st, o, h.with("$pos", Lin.of(p + 1)));
      return Out.ret(st, l.get(p));
    }
    return null;
  }

  // ---- maps ----------------------------------------------------------------------------------

  /** Difference of two keys: zero where they are equal; null if they never are. */
  private Lin keyDiff(State st, Val x, Val y) {
    if (x.equals(y)) return Lin.ZERO;
    if (x instanceof NullV || y instanceof NullV) {
      Val z = x instanceof NullV ? y : x;
      if (z instanceof BoxV || z instanceof TextV || z instanceof ObjV) return null;
    }
    if (x instanceof BoxV && y instanceof BoxV) {
      if (!((BoxV) x).cls.equals(((BoxV) y).cls)) return null;
      if (((BoxV) x).v instanceof Lin && ((BoxV) y).v instanceof Lin) {
        Lin d = ((Lin) ((BoxV) x).v).sub((Lin) ((BoxV) y).v);
        return d.isConst() && d.c.signum() != 0 ? null : d;
      }
    }
    if (x instanceof TextV && y instanceof TextV) {
      String p = Seg.asLit(((TextV) x).segs), q = Seg.asLit(((TextV) y).segs);
      if (p != null && q != null) return p.equals(q) ? Lin.ZERO : null;
    }
    if (x instanceof ObjV && y instanceof ObjV) {
      HObj g = in.obj(st, x), h = in.obj(st, y);
      if (g != null && h != null && g.fields.containsKey("$ordinal") && h.fields.containsKey("$ordinal")) return null;
    }
    if (x instanceof ClsV && y instanceof ClsV) return null;
    throw new Undecided("map key " + x + " against " + y);
  }

  /** The places of a map where the key may be, each with the state in which it is there; -1 for absence. */
  private Map<Integer, State> places(State st, List<Val> l, Val key) {
    Map<Integer, State> r = new LinkedHashMap<>();
    State rest = st;
    for (int i = 0; i < l.size() && rest != null; i += 2) {
      Lin d = keyDiff(rest, l.get(i), key);
      if (d == null) continue;
      if (rest.facts.entailsEq(d)) {
        r.put(i, rest);
        rest = null;
        break;
      }
      State there = rest.withEq(d);
      if (there != null) r.put(i, there);
      rest = rest.withNe(d);
    }
    if (rest != null) r.put(-1, rest);
    return r;
  }

  private List<Out> map(State st, Val o, HObj h, String name, String desc, List<Val> a, String where) {
    List<Val> l = h.list();
    List<Out> r = new ArrayList<>();
    switch (name) {
      case "size":
        return Out.ret(st, Lin.of(l.size() / 2));
      case "isEmpty":
        return Out.ret(st, Lin.of(l.isEmpty() ? 1 : 0));
      case "clear":
        in.put(st, o, h.withData(new ArrayList<Val>()));
        return Out.ret(st, null);
      case "get":
      case "getOrDefault":
      case "containsKey":
        for (Map.Entry<Integer, State> e : places(st, l, a.get(1)).entrySet()) {
          Val v = e.getKey() < 0 ? name.equals("get") ? NullV.NULL : name.equals("containsKey") ? Lin.ZERO : a.get(2) : name.equals("containsKey") ? Lin.ONE : l.get(e.getKey() + 1);
          r.add(new Out(e.getValue(), v, false));
        }
        return r;
      case "put":
      case "putIfAbsent":
      case "remove":
        if (name.equals("remove") && a.size() > 2) break;
        for (Map.Entry<Integer, State> e : places(st, l, a.get(1)).entrySet()) {
          int k = e.getKey();
          List<Val> n = new ArrayList<>(l);
          if (name.equals("remove")) {
            if (k >= 0) n.subList(k, k + 2).clear();
          } else if (k < 0) {
            n.add(a.get(1));
            n.add(a.get(2));
          } else if (name.equals("put") || l.get(k + 1) instanceof NullV) n.set(k + 1, a.get(2));
          in.put(e.getValue(), o, h.withData(n));
          r.add(new Out(e.getValue(), k < 0 ? NullV.NULL : l.get(k + 1), false));
        }
        return r;
      case "computeIfAbsent":
        for (Map.Entry<Integer, State> e : places(st, l, a.get(1)).entrySet()) {
          if (e.getKey() >= 0 && !(l.get(e.getKey() + 1) instanceof NullV)) {
            r.add(new Out(e.getValue(), l.get(e.getKey() + 1), false));
            continue;
          }
          if (e.getKey() >= 0) throw new Undecided("Map." + name);
          for (Out x : in.invoke(e.getValue(), Opcodes.INVOKEINTERFACE, "java/util/function/Function", "apply", "(Ljava/lang/Object;)Ljava/lang/Object;", Arrays.asList(a.get(2), a.get(1)), where)) {
            if (!x.thrown && !(x.val instanceof NullV)) {
              if (x.val instanceof T) throw new Undecided("Map." + name);
              HObj now = in.obj(x.st, o);
              List<Val> n = new ArrayList<>(now.list());
              n.add(a.get(1));
              n.add(x.val);
              in.put(x.st, o, now.withData(n));
            }
            r.add(x);
          }
        }
        return r;
      case "putAll":
        {
          HObj g = in.obj(st, a.get(1));
          if (g == null || !isMap(g.cls) || !l.isEmpty()) break;
          in.put(st, o, h.withData(new ArrayList<>(g.list())));
          return Out.ret(st, null);
        }
      case "values":
      case "keySet":
        if (h.cls.equals("java/util/LinkedHashMap") || l.size() <= 2) {
          List<Val> n = new ArrayList<>();
          for (int i = name.equals("values") ? 1 : 0; i < l.size(); i += 2) n.add(l.get(i));
          return Out.ret(st, st.alloc(new HObj("$List", Collections.emptyMap(), n, null)));
        }
        break;
      default:
    }
    throw new Undecided("Map." + name);
  }

  // ---- EnumSet -------------------------------------------------------------------------------

  List<Val> enumValues(String cls) {
    in.ensureInit(cls);
    Map<String, Val> s = in.statics.get(cls).get(0);
    List<Val> r = new ArrayList<>();
    for (org.objectweb.asm.tree.FieldNode f : in.prog.classes.get(cls).fields)
      if ((f.access & Opcodes.ACC_ENUM) != 0) r.add(s.get(f.name));
    return r;
  }

  /** EnumSet object; members maps a constant name to its membership (0/1/atom). */
  ObjV enumSetOf(State st, String cls, Map<String, Lin> members) {
    Map<Val, Lin> m = new LinkedHashMap<>();
    in.ensureInit(cls);
    for (Val v : enumValues(cls)) {
      String n = Seg.asLit(((TextV) in.staticHeap.get(((ObjV) v).id).fields.get("$name")).segs);
      m.put(v, members.getOrDefault(n, Lin.ZERO));
    }
    return st.alloc(new HObj("java/util/EnumSet", Collections.emptyMap(), m, null));
  }

  private List<Out> enumSet(State st, Val o, HObj h, String name, String desc, List<Val> a, String where) {
    Map<Val, Lin> m = h.set();
    switch (name) {
      case "contains":
        {
          Lin b = m.get(a.get(1));
          if (b == null) {
            if (a.get(1) instanceof NullV) return Out.ret(st, Lin.ZERO);
            throw new Undecided("contains of unknown constant");
          }
          return split(st, b);
        }
      case "add":
      case "remove":
        {
          Lin b = m.get(a.get(1));
          if (b == null) {
            if (a.get(1) instanceof NullV) return name.equals("add") ? Collections.singletonList(thr(st, "java/lang/NullPointerException", where)) : Out.ret(st, Lin.ZERO);
            throw new Undecided("add of unknown constant");
          }
          Map<Val, Lin> n = new LinkedHashMap<>(m);
          n.put(a.get(1), name.equals("add") ? Lin.ONE : Lin.ZERO);
          in.put(st, o, h.withData(n));
          return Out.ret(st, name.equals("add") ? Lin.ONE.sub(b) : b);
        }
      case "addAll":
      case "removeAll":
      case "retainAll":
        {
          HObj g = in.obj(st, a.get(1));
          if (g == null || !g.cls.equals("java/util/EnumSet")) throw new Undecided("EnumSet." + name);
          Map<Val, Lin> n = new LinkedHashMap<>(m);
          Lin changed = Lin.ZERO;
          for (Val k : m.keySet()) {
            Lin x = m.get(k), y = g.set().getOrDefault(k, Lin.ZERO);
            Lin q = name.equals("addAll") ? y : name.equals("removeAll") ? Lin.ONE.sub(y) : y;
            boolean or = name.equals("addAll");
            if (q.isConst()) n.put(k, or == q.isConst(1) ? (or ? Lin.ONE : Lin.ZERO) : x);
            else if (x.isConst()) n.put(k, or == x.isConst(1) ? x : q);
            else throw new Undecided("EnumSet." + name);
            changed = changed.add(or ? n.get(k).sub(x) : x.sub(n.get(k)));
          }
          in.put(st, o, h.withData(n));
          List<Out> r = new ArrayList<>();
          for (Out x : boolSplit(st, changed)) r.add(new Out(x.st, Lin.ONE.sub((Lin) x.val), false));
          return r;
        }
      case "containsAll":
        {
          HObj g = in.obj(st, a.get(1));
          if (g == null || !g.cls.equals("java/util/EnumSet")) throw new Undecided("EnumSet." + name);
          Lin missing = Lin.ZERO;
          for (Val k : m.keySet()) {
            Lin x = m.get(k), y = g.set().getOrDefault(k, Lin.ZERO);
            if (y.isConst(0) || x.isConst(1)) continue;
            if (y.isConst(1)) missing = missing.add(Lin.ONE.sub(x));
            else if (x.isConst(0)) missing = missing.add(y);
            else if (!x.equals(y)) throw new Undecided("EnumSet." + name);
          }
          return boolSplit(st, missing);
        }
      case "clone":
        return Out.ret(st, st.alloc(h));
      case "isEmpty":
      case "size":
        {
          Lin sum = Lin.ZERO;
          for (Lin b : m.values()) sum = sum.add(b);
          return name.equals("size") ? Out.ret(st, sum) : boolSplit(st, sum);
        }
      case "clear":
        {
          Map<Val, Lin> n = new LinkedHashMap<>();
          for (Val k : m.keySet()) n.put(k, Lin.ZERO);
          in.put(st, o, h.withData(n));
          return Out.ret(st, null);
        }
      case "iterator":
        {
          // membership decided up front
          List<State> cur = new ArrayList<>();
          cur.add(st);
          for (Lin b : m.values()) {
            List<State> nx = new ArrayList<>();
            for (State s : cur) for (Out x : split(s, b)) nx.add(x.st);
            cur = nx;
          }
          List<Out> r = new ArrayList<>();
          for (State s : cur) {
            List<Val> l = new ArrayList<>();
            for (Map.Entry<Val, Lin> e : m.entrySet()) if (s.facts.entailsEq(e.getValue().add(-1))) l.add(e.getKey());
            Val lo = s.alloc(new HObj("$List", Collections.emptyMap(), l, null));
            Map<String, Val> f = new LinkedHashMap<>();
            f.put("$list", lo);
            f.put("$pos", Lin.ZERO);
            r.add(new Out(s, s.alloc(new HObj("$Iter", f, null, null)), false));
          }
          return r;
        }
      case "equals":
      case "hashCode":
      case "toString":
        return null;
      default:
        throw new Undecided("EnumSet." + name);
    }
  }

  private List<Out> enumIter(State st, Val o, HObj h, String name, String where) {
    return null;
  }

  // ---- method handles ------------------------------------------------------------------------

  private List<Out> methodHandle(State st, T mh, String name, List<Val> a, String desc, String where) {
    if (!mh.fn.equals("mh")) throw new Undecided("method handle " + mh);
    String cls = ((ClsV) mh.args.get(0)).name;
    String nm = Seg.asLit(((TextV) mh.args.get(1)).segs);
    List<Val> rest = new ArrayList<>(a.subList(1, a.size()));
    String type = mh.args.size() > 2 ? Seg.asLit(((TextV) mh.args.get(2)).segs) : null;
    if (type != null && name.equals("invokeExact") && !type.equals(desc)) return Collections.singletonList(thr(st, "java/lang/invoke/WrongMethodTypeException", where));
    if (cls.equals(SB) && nm.equals("repeat") && (type == null || type.contains("II"))) {
      Lin n = Interp.lin(rest.get(2));
      HObj h = in.obj(st, rest.get(0));
      List<Out> r = new ArrayList<>();
      if (!st.facts.entailsGe(n)) {
        State bad = st.withGe(n.neg().add(-1));
        if (bad != null) r.add(thr(bad, "java/lang/IllegalArgumentException", where));
        st = st.withGe(n);
        if (st == null) return r;
      }
      in.put(st, rest.get(0), h.withData(Seg.concat(h.text(), Seg.of(Seg.run(Interp.lin(rest.get(1)), n)))));
      r.add(new Out(st, rest.get(0), false));
      return r;
    }
    if (cls.equals("java/lang/Math")) return statics(st, cls, nm, desc, rest, where);
    throw new Undecided("method handle to " + cls + "." + nm);
  }

  // ---- static methods ------------------------------------------------------------------------

  private List<Out> statics(State st, String owner, String name, String desc, List<Val> a, String where) {
    switch (owner) {
      case "java/lang/invoke/MethodType":
        {
          if (!name.equals("methodType")) return null;
          StringBuilder sb = new StringBuilder("(");
          List<Val> l = new ArrayList<>();
          for (Val v : a.subList(1, a.size())) {
            HObj h = in.obj(st, v);
            if (h != null && h.cls.startsWith("[") && h.data != null) l.addAll(h.list());
            else l.add(v);
          }
          l.add(a.get(0));
          for (int i = 0; i < l.size(); i++) {
            if (!(l.get(i) instanceof ClsV)) return null;
            String c = ((ClsV) l.get(i)).name;
            if (i == l.size() - 1) sb.append(')');
            sb.append(c.length() == 1 || c.startsWith("[") ? c : "L" + c + ";");
          }
          return Out.ret(st, T.of("methodType", "Ljava/lang/invoke/MethodType;", TextV.str(sb.toString())));
        }
      case "java/time/format/DateTimeFormatter":
        if (!name.equals("ofPattern") || textOf(st, a.get(0)) == null) return null;
        {
          List<Val> args = new ArrayList<>(a);
          args.set(0, new TextV(textOf(st, a.get(0)), false));
          List<Out> r = new ArrayList<>();
          Lin ok = Terms.bool("patternOk", args.get(0));
          State bad = st.withEq(ok), good = st.withEq(ok.add(-1));
          if (bad != null) r.add(thr(bad, "java/lang/IllegalArgumentException", where));
          if (good != null) r.add(new Out(good, T.of("DateTimeFormatter.ofPattern", "L" + owner + ";", args), false));
          return r;
        }
      case "java/lang/Integer":
      case "java/lang/Long":
      case "java/lang/Short":
      case "java/lang/Byte":
      case "java/lang/Character":
      case "java/lang/Boolean":
      case "java/lang/Float":
      case "java/lang/Double":
        return boxStatics(st, owner, name, desc, a, where);
      case "java/lang/Math":
      case "java/lang/StrictMath":
        switch (name + desc) {
          case "max(II)I":
          case "max(JJ)J":
            return minmax(st, Interp.lin(a.get(0)), Interp.lin(a.get(1)), true);
          case "min(II)I":
          case "min(JJ)J":
            return minmax(st, Interp.lin(a.get(0)), Interp.lin(a.get(1)), false);
          case "abs(I)I":
            return abs(st, Interp.lin(a.get(0)), 32);
          case "abs(J)J":
            return abs(st, Interp.lin(a.get(0)), 64);
          case "abs(D)D":
          case "abs(F)F":
            if (a.get(0) instanceof DblV || a.get(0) instanceof T) return Out.ret(st, Dbl.abs(a.get(0)));
            return null;
          case "copySign(DD)D":
            if (a.get(0) instanceof DblV && a.get(1) instanceof T) {
              double m = Math.abs(((DblV) a.get(0)).d);
              return Dbl.test(st, a.get(1), Dbl.SIGN, new DblV(-m, false), new DblV(m, false));
            }
            return null;
          case "signum(D)D":
            if (a.get(0) instanceof T) {
              List<Out> r = new ArrayList<>();
              double[] v = {-1, -1, -0.0, 0.0, 1, 1, Double.NaN};
              for (int i = 0; i < v.length; i++) for (Facts f : Dbl.in(st.facts, a.get(0), Dbl.of(Dbl.CLASSES[i]))) r.add(new Out(Dbl.with(st, f), new DblV(v[i], false), false));
              return r;
            }
            return null;
          case "scalb(DI)D":
            if (a.get(0) instanceof DblV && a.get(1) instanceof Lin && ((Lin) a.get(1)).isConst())
              return Out.ret(st, new DblV(Math.scalb(((DblV) a.get(0)).d, ((Lin) a.get(1)).c.intValue()), false));
            return null;
          case "addExact(II)I":
          case "subtractExact(II)I":
          case "addExact(JJ)J":
          case "subtractExact(JJ)J":
          case "multiplyExact(II)I":
          case "negateExact(I)I":
          case "toIntExact(J)I":
            {
              Lin v = Interp.lin(a.get(0));
              if (name.startsWith("add")) v = v.add(Interp.lin(a.get(1)));
              else if (name.startsWith("sub")) v = v.sub(Interp.lin(a.get(1)));
              else if (name.startsWith("neg")) v = v.neg();
              else if (name.startsWith("mul")) {
                Lin w = Interp.lin(a.get(1));
                if (w.isConst()) v = v.mul(w.c);
                else if (v.isConst()) v = w.mul(v.c);
                else return null;
              }
              int bits = desc.endsWith("J") ? 64 : 32;
              Lin half = Lin.of(Terms.pow2(bits - 1));
              List<Out> r = new ArrayList<>();
              State s = st;
              for (Lin c : new Lin[] {v.add(half), half.add(-1).sub(v)}) {
                if (s.facts.entailsGe(c)) continue;
                State bad = s.withGe(c.neg().add(-1));
                if (bad != null) r.add(thr(bad, "java/lang/ArithmeticException", where));
                s = s.withGe(c);
                if (s == null) return r;
              }
              r.add(new Out(s, v, false));
              return r;
            }
          case "multiplyHigh(JJ)J":
            {
              Lin x = Interp.lin(a.get(0)), y = Interp.lin(a.get(1));
              if (x.toString().compareTo(y.toString()) > 0) {
                Lin t = x;
                x = y;
                y = t;
              }
              return Out.ret(st, Lin.of(T.of("multiplyHigh", "J", x, y)));
            }
          default:
            return null;
        }
      case "java/lang/String":
        switch (name) {
          case "valueOf":
          case "copyValueOf":
            {
              Type[] ts = Type.getArgumentTypes(desc);
              if (ts.length == 1) return valueText(st, ts[0], a.get(0), where);
              List<Seg> s = textOf(st, a.get(0));
              Lin x = Interp.lin(a.get(1)), n = Interp.lin(a.get(2));
              return slice(st, s, x, x.add(n), false, IOOBE, where);
            }
          default:
            return null;
        }
      case "java/lang/System":
        if (name.equals("arraycopy")) {
          HObj h = in.obj(st, a.get(0));
          if (h != null && h.cls.equals("[C")) return copyInto(st, h.text(), Interp.lin(a.get(1)), Interp.lin(a.get(4)), a.get(2), Interp.lin(a.get(3)), where);
          HObj g = in.obj(st, a.get(2));
          BigInteger sp = st.facts.valueOf(Interp.lin(a.get(1))), dp = st.facts.valueOf(Interp.lin(a.get(3))), n = st.facts.valueOf(Interp.lin(a.get(4)));
          if (h != null && g != null && h.data != null && g.data != null && sp != null && dp != null && n != null) {
            if (sp.signum() < 0 || dp.signum() < 0 || n.signum() < 0 || sp.add(n).intValue() > h.list().size() || dp.add(n).intValue() > g.list().size())
              return Collections.singletonList(thr(st, AIOOBE, where));
            List<Val> src = new ArrayList<>(h.list()), d = new ArrayList<>(g.list());
            for (int i = 0; i < n.intValue(); i++) d.set(dp.intValue() + i, src.get(sp.intValue() + i));
            in.put(st, a.get(2), g.withData(d));
            return Out.ret(st, null);
          }
          throw new Undecided("arraycopy");
        }
        if (name.equals("identityHashCode")) return Out.ret(st, Lin.of(T.of("idhash", "I", a.get(0))));
        if (name.equals("lineSeparator")) return Out.ret(st, new TextV(Seg.whole(T.of("lineSeparator", STR)), false));
        return null;
      case "java/util/EnumSet":
        switch (name) {
          case "noneOf":
          case "allOf":
            {
              if (!(a.get(0) instanceof ClsV)) throw new Undecided("EnumSet." + name);
              Map<Val, Lin> m = new LinkedHashMap<>();
              for (Val v : enumValues(((ClsV) a.get(0)).name)) m.put(v, name.equals("noneOf") ? Lin.ZERO : Lin.ONE);
              return Out.ret(st, st.alloc(new HObj("java/util/EnumSet", Collections.emptyMap(), m, null)));
            }
          case "copyOf":
            {
              HObj h = in.obj(st, a.get(0));
              if (h != null && h.cls.equals("java/util/EnumSet")) return Out.ret(st, st.alloc(h));
              throw new Undecided("EnumSet.copyOf");
            }
          case "of":
            {
              HObj e = in.obj(st, a.get(0));
              if (e == null) throw new Undecided("EnumSet.of");
              Map<Val, Lin> m = new LinkedHashMap<>();
              for (Val v : enumValues(e.cls)) m.put(v, Lin.ZERO);
              for (Val v : a) {
                HObj x = in.obj(st, v);
                if (x != null && x.data instanceof List) for (Val w : x.list()) m.put(w, Lin.ONE);
                else m.put(v, Lin.ONE);
              }
              return Out.ret(st, st.alloc(new HObj("java/util/EnumSet", Collections.emptyMap(), m, null)));
            }
          default:
            throw new Undecided("EnumSet." + name);
        }
      case "java/util/Objects":
        switch (name) {
          case "requireNonNull":
            {
              int n = in.nullness(st, a.get(0));
              if (n == 1) return Out.ret(st, a.get(0));
              if (n == 2) return Collections.singletonList(thr(st, "java/lang/NullPointerException", where));
              List<Out> r = new ArrayList<>();
              T t = in.refTerm(a.get(0));
              State bad = st.fork();
              bad.refs.put(t, bad.info(t).isNull());
              r.add(thr(bad, "java/lang/NullPointerException", where));
              st.refs.put(t, st.info(t).nonNull());
              r.add(new Out(st, a.get(0), false));
              return r;
            }
          case "isNull":
          case "nonNull":
            {
              int n = in.nullness(st, a.get(0));
              boolean isNull = name.equals("isNull");
              if (n != 0) return Out.ret(st, Lin.of((n == 2) == isNull ? 1 : 0));
              T t = in.refTerm(a.get(0));
              State nul = st.fork();
              nul.refs.put(t, nul.info(t).isNull());
              st.refs.put(t, st.info(t).nonNull());
              List<Out> r = new ArrayList<>();
              r.add(new Out(nul, Lin.of(isNull ? 1 : 0), false));
              r.add(new Out(st, Lin.of(isNull ? 0 : 1), false));
              return r;
            }
          case "toString":
            if (a.size() == 1) return valueText(st, Type.getType(Object.class), a.get(0), where);
            return null;
          default:
            return null;
        }
      case "java/util/Arrays":
        switch (name) {
          case "fill":
            {
              HObj h = in.obj(st, a.get(0));
              if (h == null) return null;
              if (h.cls.equals("[C") && a.size() == 2) {
                List<Seg> s = Seg.of(Seg.run(Interp.lin(a.get(1)), Seg.len(h.text())));
                in.put(st, a.get(0), h.withData(s));
                return Out.ret(st, null);
              }
              if (h.cls.equals("[C") && a.size() == 4) {
                Lin f = Interp.lin(a.get(1)), t = Interp.lin(a.get(2));
                return copyInto(st, Seg.of(Seg.run(Interp.lin(a.get(3)), t.sub(f))), Lin.ZERO, t.sub(f), a.get(0), f, where);
              }
              if (h.data != null && a.size() == 2) {
                in.put(st, a.get(0), h.withData(new ArrayList<>(Collections.nCopies(h.list().size(), a.get(1)))));
                return Out.ret(st, null);
              }
              throw new Undecided("Arrays.fill");
            }
          case "copyOf":
          case "copyOfRange":
            {
              HObj h = in.obj(st, a.get(0));
              Lin f = name.equals("copyOf") ? Lin.ZERO : Interp.lin(a.get(1));
              Lin t = Interp.lin(a.get(name.equals("copyOf") ? 1 : 2));
              if (h != null && h.cls.equals("[C") || a.get(0) instanceof T && ((T) a.get(0)).desc.equals("[C")) {
                List<Seg> s = textOf(st, a.get(0));
                Lin len = Seg.len(s);
                List<Out> r = new ArrayList<>();
                State inside = st.withGe(len.sub(t));
                if (inside != null)
                  for (Out x : slice(inside, s, f, t, false, AIOOBE, where)) {
                    if (x.thrown) r.add(x);
                    else r.add(new Out(x.st, x.st.alloc(new HObj("[C", Collections.emptyMap(), ((TextV) x.val).segs, null)), false));
                  }
                State longer = st.withGe(t.sub(len).add(-1));
                if (longer != null)
                  for (Out x : slice(longer, s, f, len, false, AIOOBE, where)) {
                    if (x.thrown) r.add(x);
                    else r.add(new Out(x.st, x.st.alloc(new HObj("[C", Collections.emptyMap(), Seg.concat(((TextV) x.val).segs, Seg.of(Seg.run(Lin.ZERO, t.sub(len)))), null)), false));
                  }
                return r;
              }
              BigInteger cf = st.facts.valueOf(f), ct = st.facts.valueOf(t);
              if (h != null && h.data != null && cf != null && ct != null) {
                List<Val> n = new ArrayList<>();
                for (int i = cf.intValue(); i < ct.intValue(); i++) n.add(i < h.list().size() ? h.list().get(i) : Interp.zero(h.cls.substring(1)));
                return Out.ret(st, st.alloc(new HObj(h.cls, Collections.emptyMap(), n, null)));
              }
              throw new Undecided("Arrays." + name);
            }
          case "asList":
            {
              HObj h = in.obj(st, a.get(0));
              if (h != null && h.data != null && !h.cls.equals("[C")) return Out.ret(st, st.alloc(new HObj("$List", Collections.emptyMap(), new ArrayList<>(h.list()), null)));
              throw new Undecided("Arrays.asList");
            }
          default:
            return null;
        }
      case "java/util/Collections":
        if (name.startsWith("unmodifiable") || name.startsWith("synchronized")) return Out.ret(st, a.get(0));
        if (name.equals("emptyList")) return Out.ret(st, st.alloc(new HObj("$List", Collections.emptyMap(), new ArrayList<Val>(), null)));
        if (name.equals("singletonList") || name.equals("singleton")) return Out.ret(st, st.alloc(new HObj("$List", Collections.emptyMap(), new ArrayList<>(Collections.singletonList(a.get(0))), null)));
        if (name.equals("addAll")) {
          HObj h = in.obj(st, a.get(0)), g = in.obj(st, a.get(1));
          if (isList(h) && g != null && g.data != null) {
            List<Val> n = new ArrayList<>(h.list());
            n.addAll(g.list());
            in.put(st, a.get(0), h.withData(n));
            return Out.ret(st, Lin.ONE);
          }
        }
        return null;
      case "java/lang/ThreadLocal":
        if (name.equals("withInitial")) return Out.ret(st, st.alloc(new HObj("java/lang/ThreadLocal").with("$init", a.get(0))));
        return null;
      case "java/lang/reflect/Array":
        {
          HObj h = in.obj(st, a.get(0));
          if (name.equals("getLength") && h != null) return Out.ret(st, arrayLen(st, a.get(0)));
          return null;
        }
      case "java/math/BigDecimal":
        {
          List<Val> d = new ArrayList<>();
          for (Val x : a) d.add(deref(st, x));
          if (name.equals("valueOf") && desc.startsWith("(JI)")) return Out.ret(st, T.of("BD", "Ljava/math/BigDecimal;", new BigV(Interp.lin(a.get(0))), a.get(1)));
          return null;
        }
      case "java/math/BigInteger":
        if (name.equals("valueOf")) return Out.ret(st, new BigV(Interp.lin(a.get(0))));
        return null;
      default:
        return null;
    }
  }

  private List<Out> boxStatics(State st, String owner, String name, String desc, List<Val> a, String where) {
    String d = unboxDesc(owner);
    int bits = d.equals("J") ? 64 : d.equals("B") ? 8 : d.equals("S") ? 16 : 32;
    switch (name) {
      case "valueOf":
        if (desc.startsWith("(" + d + ")")) return Out.ret(st, box(d, a.get(0)));
        return null;
      case "toString":
        {
          if (desc.equals("(II)Ljava/lang/String;") || desc.equals("(JI)Ljava/lang/String;")) {
            Lin rx = Interp.lin(a.get(1));
            if (rx.isConst(10)) return decimal(st, Interp.lin(a.get(0)));
            if (rx.isConst() && st.facts.entailsGe(Interp.lin(a.get(0)))) return Out.ret(st, new TextV(Terms.nat(rx.c.intValue(), Interp.lin(a.get(0))), false));
            return null;
          }
          return valueText(st, Type.getType(d), a.get(0), where);
        }
      case "toHexString":
        if (d.equals("D") && a.get(0) instanceof T) return hexText(st, a.get(0));
        if (d.equals("D") || d.equals("F")) return null;
        return unsignedText(st, Interp.lin(a.get(0)), bits, 16);
      case "toOctalString":
        return unsignedText(st, Interp.lin(a.get(0)), bits, 8);
      case "toBinaryString":
        return unsignedText(st, Interp.lin(a.get(0)), bits, 2);
      case "toUnsignedString":
        if (a.size() == 1) return unsignedText(st, Interp.lin(a.get(0)), bits, 10);
        if (Interp.lin(a.get(1)).isConst()) return unsignedText(st, Interp.lin(a.get(0)), bits, Interp.lin(a.get(1)).c.intValue());
        return null;
      case "toUnsignedInt":
      case "toUnsignedLong":
        return unsignedSplit(st, Interp.lin(a.get(0)), bits);
      case "signum":
        return cmp3(st, Interp.lin(a.get(0)));
      case "compare":
        if (d.equals("D") || d.equals("F")) {
          Val x = d.equals("F") ? Interp.f2d(a.get(0)) : a.get(0), y = d.equals("F") ? Interp.f2d(a.get(1)) : a.get(1);
          Double c = y instanceof DblV ? (Double) ((DblV) y).d : null;
          if (x instanceof T && c != null && c == 0) {
            boolean pos = Dbl.constant(c) > 0;
            List<Out> r = new ArrayList<>();
            for (Out o : Dbl.test(st, x, pos ? Dbl.SIGN : Dbl.of(-3, -2), Lin.of(-1), Lin.ZERO)) {
              if (o.val != Lin.ZERO) r.add(o);
              else r.addAll(Dbl.test(o.st, x, Dbl.of(pos ? 1 : -1), Lin.ZERO, Lin.ONE));
            }
            return r;
          }
          return Out.ret(st, Lin.of(T.of("Double.compare", "#", BigInteger.ONE.negate(), BigInteger.ONE, x, y)));
        }
        if (d.equals("C") || d.equals("S") || d.equals("B")) return Out.ret(st, Interp.lin(a.get(0)).sub(Interp.lin(a.get(1))));
        return cmp3(st, Interp.lin(a.get(0)).sub(Interp.lin(a.get(1))));
      case "parseInt":
      case "parseLong":
        {
          List<Seg> s = textOf(st, a.get(0));
          if (s == null) return null;
          Lin radix = a.size() > 1 ? Interp.lin(a.get(1)) : Lin.of(10);
          if (a.size() > 2) return null;
          String l = Seg.asLit(s);
          String ty = name.equals("parseInt") ? "I" : "J";
          if (l != null && radix.isConst())
            try {
              return Out.ret(st, Lin.of(ty.equals("I") ? Integer.parseInt(l, radix.c.intValue()) : Long.parseLong(l, radix.c.intValue())));
            } catch (NumberFormatException e) {
              return Collections.singletonList(thr(st, "java/lang/NumberFormatException", where));
            }
          List<Out> r = new ArrayList<>();
          Lin value = radix.equals(Lin.of(10)) ? decimalValue(st.facts, s) : null;
          if (value != null) {
            Lin room = Lin.of(ty.equals("I") ? BigInteger.valueOf(Integer.MAX_VALUE) : BigInteger.valueOf(Long.MAX_VALUE)).sub(value);
            State fits = st.withGe(room), over = st.withGe(room.neg().add(-1));
            if (over != null) r.add(thr(over, "java/lang/NumberFormatException", where));
            if (fits != null) r.add(new Out(fits, value, false));
            return r;
          }
          Lin ok = Terms.bool(name + "Ok", new TextV(s, false), radix);
          State bad = st.withEq(ok);
          if (bad != null) r.add(thr(bad, "java/lang/NumberFormatException", where));
          State good = st.withEq(ok.add(-1));
          if (good != null) r.add(new Out(good, Lin.of(T.of("parse", ty, new TextV(s, false), radix)), false));
          return r;
        }
      case "parseDouble":
        {
          List<Seg> s = textOf(st, a.get(0));
          if (s == null) return null;
          List<Out> r = new ArrayList<>();
          Lin ok = Terms.bool("parseDoubleOk", new TextV(s, false));
          State bad = st.withEq(ok);
          if (bad != null) r.add(thr(bad, "java/lang/NumberFormatException", where));
          State good = st.withEq(ok.add(-1));
          if (good != null) r.add(new Out(good, T.of("parseDouble", "D", new TextV(s, false)), false));
          return r;
        }
      case "isNaN":
      case "isInfinite":
      case "isFinite":
        {
          Val x = d.equals("F") ? Interp.f2d(a.get(0)) : a.get(0);
          if (x instanceof DblV) {
            double v = ((DblV) x).d;
            return Out.ret(st, Lin.of((name.equals("isNaN") ? Double.isNaN(v) : name.equals("isInfinite") ? Double.isInfinite(v) : !Double.isNaN(v) && !Double.isInfinite(v)) ? 1 : 0));
          }
          return Dbl.test(st, x, name.equals("isNaN") ? Dbl.NAN : name.equals("isInfinite") ? Dbl.INF : Dbl.FINITE, Lin.ONE, Lin.ZERO);
        }
      case "doubleToRawLongBits":
      case "doubleToLongBits":
        {
          if (!(a.get(0) instanceof T)) return a.get(0) instanceof DblV ? Out.ret(st, Lin.of(Double.doubleToRawLongBits(((DblV) a.get(0)).d))) : null;
          Lin raw = Lin.of(T.of("bits", "#", BigInteger.ZERO, BigInteger.valueOf(Long.MAX_VALUE), Dbl.abs(a.get(0))));
          return Dbl.test(st, a.get(0), Dbl.SIGN, raw.add(Long.MIN_VALUE), raw);
        }
      case "isUpperCase":
      case "isLowerCase":
      case "toUpperCase":
      case "toLowerCase":
        {
          if (!(a.get(0) instanceof Lin)) return null;
          // exact on ASCII, some function of the character elsewhere
          Lin c = (Lin) a.get(0);
          boolean up = name.startsWith("isUpper") || name.equals("toLowerCase"), test = name.startsWith("is");
          int lo = up ? 'A' : 'a', hi = up ? 'Z' : 'z';
          List<Out> r = new ArrayList<>();
          State in1 = st.withGe(c.add(-lo));
          in1 = in1 == null ? null : in1.withGe(Lin.of(hi).sub(c));
          if (in1 != null) r.add(new Out(in1, test ? Lin.ONE : c.add(up ? 32 : -32), false));
          State below = st.withGe(Lin.of(lo - 1).sub(c)), above = st.withGe(c.add(-hi - 1));
          above = above == null ? null : above.withGe(Lin.of(127).sub(c));
          for (State x : new State[] {below, above}) if (x != null) r.add(new Out(x, test ? Lin.ZERO : c, false));
          State far = st.withGe(c.add(-128));
          if (far != null) {
            Lin v = Lin.of(T.of("Character." + name, test ? "Z" : d.equals("I") ? "I" : "C", c));
            if (test) r.addAll(split(far, v));
            else r.add(new Out(far, v, false));
          }
          return r;
        }
      case "isDigit":
        if (a.get(0) instanceof Lin && ((Lin) a.get(0)).isConst()) return Out.ret(st, Lin.of(Character.isDigit(((Lin) a.get(0)).c.intValue()) ? 1 : 0));
        return null;
      case "sum":
      case "max":
      case "min":
        if (d.equals("I") && name.equals("max")) return minmax(st, Interp.lin(a.get(0)), Interp.lin(a.get(1)), true);
        if (d.equals("I") && name.equals("min")) return minmax(st, Interp.lin(a.get(0)), Interp.lin(a.get(1)), false);
        return null;
      default:
        return null;
    }
  }

  /** Double.toHexString: a sign, 0x, mantissa and exponent of the magnitude. */
  private List<Out> hexText(State st, Val x) {
    List<Out> r = new ArrayList<>();
    for (Facts f : Dbl.in(st.facts, x, Dbl.NAN)) r.add(new Out(Dbl.with(st, f), TextV.str("NaN"), false));
    for (boolean neg : new boolean[] {true, false}) {
      String sign = neg ? "-" : "";
      for (Facts f : Dbl.in(st.facts, x, Dbl.of(neg ? -3 : 3))) r.add(new Out(Dbl.with(st, f), TextV.str(sign + "Infinity"), false));
      List<Seg> s = Seg.concat(Seg.lit(sign + "0x"), Seg.whole(T.of("HEXM", STR, Dbl.abs(x))));
      s = Seg.concat(Seg.concat(s, Seg.lit("p")), Seg.whole(T.of("HEXE", STR, Dbl.abs(x))));
      for (Facts f : Dbl.in(st.facts, x, neg ? Dbl.of(-2, -1) : Dbl.of(2, 1))) r.add(new Out(Dbl.with(st, f), new TextV(s, false), false));
    }
    return r;
  }

  /** The number a text of single, known-to-be-ASCII digits stands for, or null. */
  private static Lin decimalValue(Facts f, List<Seg> s) {
    Lin v = Lin.ZERO;
    boolean any = false;
    for (Seg x : s) {
      if (x.k == Seg.K.LIT) {
        for (char c : x.lit.toCharArray()) {
          if (c < '0' || c > '9') return null;
          v = v.mul(BigInteger.TEN).add(c - '0');
          any = true;
        }
      } else if (x.k == Seg.K.RUN && x.n.equals(Lin.ONE)) {
        if (!f.entailsGe(x.ch.add(-'0')) || !f.entailsGe(Lin.of('9').sub(x.ch))) return null;
        v = v.mul(BigInteger.TEN).add(x.ch).add(-'0');
        any = true;
      } else return null;
    }
    return any ? v : null;
  }
}
