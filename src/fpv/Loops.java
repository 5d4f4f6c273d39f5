package fpv;

import java.math.BigInteger;
import java.util.*;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.tree.*;

/**
 * Loop summaries: the cells a loop changes are found by iteration, replaced by fresh values, related to
 * an iteration counter where they advance by a constant, and constrained by the invariants that survive
 * an inductive check. Loops whose every iteration is decided are unrolled instead.
 */
final class Loops {
  private final Interp in;
  private final Cfg g;
  private final Interp.Fr entry;
  private final int h;
  private final BitSet body;

  Loops(Interp in, Cfg g, Interp.Fr entry, int h) {
    this.in = in;
    this.g = g;
    this.entry = entry;
    this.h = h;
    this.body = g.loops.get(h);
  }

  private Interp.Res once(Interp.Fr f) {
    return in.run(g, Collections.singletonList(f), body, h);
  }

  Interp.Res solve() {
    Interp.Fr cur = entry;
    if (in.unrollFirst) {
      Interp.Res r = unroll(cur, 40, 300);
      if (r != null) return r;
    }
    int limit = in.inClinit() ? 3000 : 70;
    for (int i = 0; i < limit; i++) {
      Interp.Res r = once(cur.fork());
      if (r.backs.isEmpty()) return r;
      if (r.exits.isEmpty() && r.outs.isEmpty() && r.backs.size() == 1) {
        cur = r.backs.get(0);
        continue;
      }
      break;
    }
    return summarise(cur, 0);
  }

  private Interp.Res summarise(Interp.Fr cur, int depth) {
    Interp.Res r;
    try {
      r = abstractly(cur, depth);
    } catch (Undecided u) {
      Interp.Res un = unroll(cur, 70, 64);
      if (un != null) return un;
      throw u;
    }
    if (bounded) {
      Interp.Res un = unroll(cur, 70, 400);
      if (un != null) return un;
    }
    return r;
  }

  private boolean bounded;

  private Interp.Res unroll(Interp.Fr cur, int max, int width) {
    Interp.Res acc = new Interp.Res();
    List<Interp.Fr> front = new ArrayList<>();
    front.add(cur.fork());
    try {
      for (int i = 0; i < max; i++) {
        List<Interp.Fr> next = new ArrayList<>();
        for (Interp.Fr f : in.mergeFrames(front)) {
          Interp.Res r = once(f);
          acc.exits.addAll(r.exits);
          acc.outs.addAll(r.outs);
          next.addAll(r.backs);
        }
        if (next.isEmpty()) return acc;
        if (next.size() > width || acc.exits.size() > 3000) return null;
        front = next;
      }
    } catch (Undecided u) {
      return null;
    }
    return null;
  }

  // ---- cells ---------------------------------------------------------------------------------

  private Map<String, Val> cells(Interp.Fr f, int maxId) {
    Map<String, Val> m = new LinkedHashMap<>();
    BitSet live = g.live(h);
    for (int i = 0; i < f.loc.length; i++) if (f.loc[i] != null && live.get(i)) m.put("L" + i, f.loc[i]);
    for (int i = 0; i < f.stk.size(); i++) m.put("K" + i, f.stk.get(i));
    return m;
  }

  private static Val fieldOf(HObj o, String n) {
    return o.fields.get(n);
  }

  /** Cells that differ between the head and a back-edge state. */
  private void diff(Interp.Fr head, Interp.Fr back, Set<String> out) {
    Map<String, Val> a = cells(head, 0), b = cells(back, 0);
    for (String k : a.keySet()) if (!a.get(k).equals(b.get(k))) out.add(k);
    for (Integer id : back.st.heap.keySet()) {
      if (id >= head.st.nextId) continue;
      ObjV o = new ObjV(id);
      HObj x = in.obj(head.st, o), y = in.obj(back.st, o);
      if (x == y || x == null) continue;
      Set<String> fs = new LinkedHashSet<>(x.fields.keySet());
      fs.addAll(y.fields.keySet());
      for (String f : fs) if (!Objects.equals(x.fields.get(f), y.fields.get(f))) out.add("F" + id + "." + f);
      if (!Objects.equals(x.data, y.data) || !Objects.equals(x.len, y.len)) out.add("D" + id);
    }
    Set<String> ss = new LinkedHashSet<>(back.st.statics.keySet());
    for (String s : ss) if (!Objects.equals(head.st.statics.get(s), back.st.statics.get(s))) out.add("S" + s);
  }

  private Val read(Interp.Fr f, String cell) {
    char c = cell.charAt(0);
    if (c == 'L') return f.loc[Integer.parseInt(cell.substring(1))];
    if (c == 'K') return f.stk.get(Integer.parseInt(cell.substring(1)));
    if (c == 'S') return f.st.statics.get(cell.substring(1));
    if (c == 'F') {
      int d = cell.indexOf('.');
      return in.obj(f.st, new ObjV(Integer.parseInt(cell.substring(1, d)))).fields.get(cell.substring(d + 1));
    }
    throw new IllegalStateException(cell);
  }

  private void write(Interp.Fr f, String cell, Val v) {
    char c = cell.charAt(0);
    if (c == 'L') f.loc[Integer.parseInt(cell.substring(1))] = v;
    else if (c == 'K') f.stk.set(Integer.parseInt(cell.substring(1)), v);
    else if (c == 'S') f.st.statics.put(cell.substring(1), v);
    else {
      int d = cell.indexOf('.');
      ObjV o = new ObjV(Integer.parseInt(cell.substring(1, d)));
      in.put(f.st, o, in.obj(f.st, o).with(cell.substring(d + 1), v));
    }
  }

  private static HObj dataObj(Interp in, Interp.Fr f, String cell) {
    return in.obj(f.st, new ObjV(Integer.parseInt(cell.substring(1))));
  }

  private static boolean isTextData(HObj o) {
    return Models.isText(o) || o.cls.equals("[C");
  }

  // ---- the abstract phase --------------------------------------------------------------------

  private enum Form {
    HAVOC,
    IV
  }

  private Interp.Res abstractly(Interp.Fr cur, int depth) {
    Set<String> changed = new LinkedHashSet<>();
    Map<String, T> atom = new LinkedHashMap<>(); // numeric cells
    Map<String, T> acc = new LinkedHashMap<>(); // text cells
    Map<String, BigInteger> iv = new LinkedHashMap<>();
    T kT = T.of(T.freshName("k"), "#", BigInteger.ZERO, T.INT_MAX);
    Lin k = Lin.of(kT);
    Map<String, java.util.function.Function<Lin, List<Seg>>> closed = new LinkedHashMap<>();
    Set<String> noClosed = new HashSet<>();
    List<Lin> cands = new ArrayList<>();
    boolean withEvents = false;
    List<List<Event>> loopBody = new ArrayList<>();
    Interp.Fr head = null;
    Interp.Res r = null;

    // 1. which cells change
    for (int round = 0; ; round++) {
      if (round > 12) throw new Undecided("loop at " + g.where(h) + " does not stabilise");
      head = mkHead(cur, changed, atom, acc, iv, k, closed, cands, null);
      r = once(head.fork());
      Set<String> d = new LinkedHashSet<>();
      for (Interp.Fr b : r.backs) diff(head, b, d);
      if (!changed.addAll(d)) break;
    }
    if (r.backs.isEmpty()) return r;

    // 2. induction variables
    for (String c : changed) {
      T a = atom.get(c);
      if (a == null) continue;
      BigInteger delta = null;
      boolean ok = true;
      for (Interp.Fr b : r.backs) {
        Val v = read(b, c);
        if (!(v instanceof Lin)) {
          ok = false;
          break;
        }
        Lin d = ((Lin) v).sub(Lin.of(a));
        // a wrap that the guard has not excluded yet is re-examined once the range is known
        if (!d.isConst() && ((Lin) v).atoms.length == 1 && ((Lin) v).atoms[0].fn.equals("s32")) d = ((Lin) ((Lin) v).atoms[0].args.get(0)).sub(Lin.of(a));
        if (!d.isConst() || (delta != null && !delta.equals(d.c))) {
          ok = false;
          break;
        }
        delta = d.c;
      }
      if (ok && delta.signum() != 0) iv.put(c, delta);
    }

    // 3. invariants
    Set<String> demoted = new HashSet<>();
    for (int attempt = 0; ; attempt++) {
      if (attempt > 6) throw new Undecided("induction variables at " + g.where(h));
      cands = new ArrayList<>();
      head = mkHead(cur, changed, atom, acc, iv, k, closed, cands, null);
      r = once(head.fork());
      cands = candidates(cur, head, r, changed, atom, iv, k, kT);
      // entry check, with a case distinction on guards that may be false at once
      Interp.Fr[] split = new Interp.Fr[2];
      Lin bad = null;
      Map<T, Lin> at0 = atEntry(cur, changed, atom, iv, kT);
      for (Iterator<Lin> it = cands.iterator(); it.hasNext(); ) {
        Lin c = it.next();
        Lin e = subst(c, at0);
        if (e == null || !cur.st.facts.entailsGe(e)) {
          it.remove();
          if (e != null && guards.contains(c) && bad == null && depth < 2 && cur.st.facts.possibleGe(e)) bad = e;
        }
      }
      if (bad != null) {
        State yes = cur.st.withGe(bad), no = cur.st.withGe(bad.neg().add(-1));
        Interp.Res res = new Interp.Res();
        boolean any = false;
        for (State s : new State[] {yes, no}) {
          if (s == null) continue;
          Interp.Fr f = cur.forkWith(s);
          Interp.Res first = once(f.fork());
          Interp.Res part = first.backs.isEmpty() ? first : summarise(f, depth + 1);
          res.exits.addAll(part.exits);
          res.outs.addAll(part.outs);
        }
        bounded = false;
        return res;
      }
      // inductive check
      for (int round = 0; ; round++) {
        head = mkHead(cur, changed, atom, acc, iv, k, closed, cands, null);
        r = once(head.fork());
        List<Lin> keep = new ArrayList<>();
        for (Lin c : cands) {
          boolean ok = true;
          for (Interp.Fr b : r.backs) {
            Lin n = subst(c, next(b, changed, atom, iv, kT, k));
            if (n == null || !b.st.facts.entailsGe(n)) {
              ok = false;
              break;
            }
          }
          if (ok) keep.add(c);
        }
        if (keep.size() == cands.size()) break;
        cands = keep;
        if (round > 12) throw new Undecided("invariants at " + g.where(h));
      }
      boolean again = false;
      for (String c : new ArrayList<>(iv.keySet())) {
        Lin want = ((Lin) read(head, c)).add(Lin.of(iv.get(c)));
        for (Interp.Fr b : r.backs) {
          Val v = read(b, c);
          if (!(v instanceof Lin) || !b.st.facts.entailsEq(((Lin) v).sub(want))) {
            iv.remove(c);
            again = true;
            break;
          }
        }
      }
      Set<String> d = new LinkedHashSet<>();
      for (Interp.Fr b : r.backs) diff(head, b, d);
      if (!again && changed.containsAll(d)) break;
      changed.addAll(d);
    }

    // 4. closed forms of texts
    for (String c : changed) {
      T a = acc.get(c);
      if (a == null) continue;
      java.util.function.Function<Lin, List<Seg>> f = guess(c, a, cur, r, head, k, kT);
      if (f != null) closed.put(c, f);
    }
    while (!closed.isEmpty()) {
      Interp.Fr h2 = mkHead(cur, changed, atom, acc, iv, k, closed, cands, null);
      Interp.Res r2 = once(h2.fork());
      boolean ok = true;
      for (String c : new ArrayList<>(closed.keySet())) {
        for (Interp.Fr b : r2.backs) {
          List<Seg> got = textCell(b, c);
          List<Seg> want = closed.get(c).apply(k.add(1));
          if (got == null || want == null || SegCmp.compare(got, want, b.st.facts).verdict != SegCmp.EQ) {
            closed.remove(c);
            ok = false;
            break;
          }
        }
      }
      if (ok) {
        // values may have become more precise, but never change kind
        head = h2;
        r = r2;
        break;
      }
    }

    // 5. events
    boolean ev = false;
    for (Interp.Fr b : r.backs) ev |= b.st.events.size() > head.st.events.size();
    if (ev) {
      Event le = new Event("LOOP", Collections.singletonList(k), g.where(h), loopBody);
      for (Interp.Fr b : r.backs) loopBody.add(new ArrayList<>(b.st.events.subList(head.st.events.size(), b.st.events.size())));
      head = mkHead(cur, changed, atom, acc, iv, k, closed, cands, le);
      r = once(head.fork());
    }
    if (in.loopListener != null) in.loopListener.loop(g, h, head, cur, k, r.backs, r);
    bounded = true;
    for (Interp.Fr b : r.backs) bounded &= b.st.facts.entailsGe(Lin.of(60).sub(k));
    if (in.loopListener != null) bounded = false;
    if (scans(head, r, kT)) {
      for (Interp.Fr e : r.exits) e.st.lossy = true;
      for (Out o : r.outs) o.st.lossy = true;
    }
    Interp.Res fin = new Interp.Res();
    Subst sub = exitNames(cur, kT, atom, acc);
    for (Interp.Fr e : r.exits) if (sub == null || sub.frame(e)) fin.exits.add(e);
    for (Out o : r.outs) {
      if (sub == null) fin.outs.add(o);
      else if (sub.state(o.st)) fin.outs.add(new Out(o.st, o.val == null ? null : sub.val(o.val), o.thrown));
    }
    return fin;
  }

  /**
   * Does the loop end on what it finds at its current place in a text? What its exits then know about
   * the places passed before is not expressed, so they admit more than what can happen.
   */
  private static boolean scans(Interp.Fr head, Interp.Res r, T kT) {
    Set<T> old = new HashSet<>();
    places(head.st.facts, old);
    Set<T> now = new HashSet<>();
    for (Interp.Fr e : r.exits) places(e.st.facts, now);
    for (Out o : r.outs) places(o.st.facts, now);
    now.removeAll(old);
    for (T t : now) if (((Lin) t.args.get(1)).coefOf(kT).signum() != 0) return true;
    return false;
  }

  private static void places(Facts f, Set<T> out) {
    for (Lin[] ls : new Lin[][] {f.eq, f.ge, f.ne}) for (Lin l : ls) for (T t : l.atoms) if (t.fn.equals("CHAR") && t.args.get(1) instanceof Lin) out.add(t);
  }

  /**
   * What a loop leaves behind is a function of what it starts from, so the values at its exits are named
   * by the loop and its starting values. Two analyses of the same loop then speak of the same values.
   */
  private Subst exitNames(Interp.Fr cur, T kT, Map<String, T> atom, Map<String, T> acc) {
    BitSet read = new BitSet();
    for (int pc = body.nextSetBit(0); pc >= 0; pc = body.nextSetBit(pc + 1)) {
      AbstractInsnNode n = g.insns[pc];
      if (n instanceof VarInsnNode && n.getOpcode() < Opcodes.ISTORE) read.set(((VarInsnNode) n).var);
      if (n instanceof IincInsnNode) read.set(((IincInsnNode) n).var);
    }
    List<Val> key = new ArrayList<>();
    int[] budget = {400};
    BitSet live = g.live(h);
    for (int i = 0; i < cur.loc.length; i++)
      if (read.get(i) && live.get(i) && cur.loc[i] != null) {
        Val v = content(cur.st, cur.loc[i], new ArrayList<>(), budget);
        if (v == null) return null;
        key.add(v);
      }
    for (Val v : cur.stk) {
      Val c = content(cur.st, v, new ArrayList<>(), budget);
      if (c == null) return null;
      key.add(c);
    }
    String site = g.m.id() + "@" + h;
    Map<T, T> m = new HashMap<>();
    m.put(kT, T.of("ITER:" + site, "#", BigInteger.ZERO, T.INT_MAX, key));
    for (Map.Entry<String, T> e : atom.entrySet()) {
      T t = e.getValue();
      m.put(t, T.of("?" + e.getKey() + ":" + site, t.desc, t.lo, t.hi, key));
    }
    for (Map.Entry<String, T> e : acc.entrySet()) m.put(e.getValue(), T.of("?" + e.getKey() + ":" + site, Models.STR, key));
    return new Subst(m);
  }

  /** A value with the heap it reaches, as a term; null when that is too large. */
  private Val content(State st, Val v, List<Integer> path, int[] budget) {
    if (--budget[0] < 0) return null;
    if (v instanceof LamV) {
      List<Val> a = new ArrayList<>();
      for (Val x : ((LamV) v).captured) {
        Val c = content(st, x, path, budget);
        if (c == null) return null;
        a.add(c);
      }
      return T.of("lam:" + ((LamV) v).impl, "Ljava/lang/Object;", a);
    }
    if (!(v instanceof ObjV)) return v;
    int id = ((ObjV) v).id;
    if (id < 0) return v;
    if (path.contains(id)) return Lin.of(path.size() - path.indexOf(id));
    HObj o = in.obj(st, v);
    if (o == null) return null;
    path.add(id);
    List<Val> a = new ArrayList<>();
    for (Map.Entry<String, Val> e : o.fields.entrySet()) {
      Val c = content(st, e.getValue(), path, budget);
      if (c == null) return null;
      a.add(c);
    }
    if (isTextData(o)) a.add(new TextV(o.text(), false));
    else if (o.data instanceof List) {
      for (Val x : o.list()) {
        Val c = content(st, x, path, budget);
        if (c == null) return null;
        a.add(c);
      }
    } else if (o.data instanceof Map) {
      for (Lin x : o.set().values()) a.add(x);
    } else if (o.data != null) return null;
    if (o.len != null) a.add(o.len);
    path.remove(path.size() - 1);
    return T.of("obj:" + o.cls, "Ljava/lang/Object;", a);
  }

  private Interp.Fr mkHead(Interp.Fr cur, Set<String> changed, Map<String, T> atom, Map<String, T> acc, Map<String, BigInteger> iv, Lin k, Map<String, java.util.function.Function<Lin, List<Seg>>> closed, List<Lin> cands, Event ev) {
    Interp.Fr f = cur.fork();
    BitSet live = g.live(h);
    for (int i = 0; i < f.loc.length; i++) if (!live.get(i)) f.loc[i] = null;
    if (ev != null) f.st.events.add(ev);
    for (String c : changed) {
      if (c.charAt(0) == 'D') {
        HObj o = dataObj(in, cur, c);
        ObjV ov = new ObjV(Integer.parseInt(c.substring(1)));
        if (isTextData(o)) {
          if (closed.containsKey(c)) {
            List<Seg> t = closed.get(c).apply(k);
            if (t == null) throw new Undecided("closed form");
            in.put(f.st, ov, o.withData(t));
            continue;
          }
          T a = acc.computeIfAbsent(c, x -> T.of(T.freshName("?acc"), Models.STR));
          if (o.cls.equals("[C")) {
            List<Seg> s = new ArrayList<>();
            Seg.push(s, Seg.sub(a, Lin.ZERO, Seg.len(o.text()), false));
            in.put(f.st, ov, o.withData(s));
          } else in.put(f.st, ov, o.withData(Seg.concat(o.text(), Seg.whole(a))));
        } else if (o.data instanceof List) {
          if (o.cls.startsWith("[")) {
            // object or number array with changing elements
            Map<String, Val> fs = new LinkedHashMap<>();
            fs.put("$content", T.of(T.freshName("?array"), o.cls));
            in.put(f.st, ov, new HObj(o.cls, fs, null, Lin.of(o.list().size())));
          } else {
            List<Val> l = new ArrayList<>(o.list());
            if (!l.contains(Models.REST)) l.add(Models.REST);
            in.put(f.st, ov, o.withData(l));
          }
        } else if (o.data instanceof Map) {
          Map<Val, Lin> m = new LinkedHashMap<>();
          int i = 0;
          for (Val key : o.set().keySet()) {
            String name = c + "#" + i++;
            T a = atom.computeIfAbsent(name, x -> T.of(T.freshName("?in"), "Z"));
            m.put(key, Lin.of(a));
          }
          in.put(f.st, ov, o.withData(m));
        } else if (o.data == null) {
          Map<String, Val> fs = new LinkedHashMap<>(o.fields);
          fs.put("$content", T.of(T.freshName("?array"), o.cls));
          in.put(f.st, ov, new HObj(o.cls, fs, null, o.len));
        } else throw new Undecided("loop changes " + o.cls);
        continue;
      }
      Val v0 = read(cur, c);
      if (v0 == null) {
        if (c.charAt(0) == 'F') throw new Undecided("loop initialises a field");
        continue;
      }
      if (v0 instanceof Lin) {
        if (iv.containsKey(c)) {
          Lin v = ((Lin) v0).add(k.mul(iv.get(c)));
          write(f, c, v);
          BigInteger[] rg = range(c);
          if (!f.st.assumeGe(v.sub(Lin.of(rg[0]))) || !f.st.assumeGe(Lin.of(rg[1]).sub(v))) throw new Undecided("empty head");
        } else {
          T a = atom.get(c);
          if (a == null) {
            BigInteger[] rg = range(c);
            a = T.of(T.freshName("?v"), "#", rg[0], rg[1]);
            atom.put(c, a);
          }
          write(f, c, Lin.of(a));
        }
      } else if (v0 instanceof TextV) {
        if (closed.containsKey(c)) {
          write(f, c, new TextV(closed.get(c).apply(k), ((TextV) v0).seq));
          continue;
        }
        T a = acc.computeIfAbsent(c, x -> T.of(T.freshName("?acc"), Models.STR));
        write(f, c, new TextV(Seg.concat(((TextV) v0).segs, Seg.whole(a)), ((TextV) v0).seq));
      } else {
        write(f, c, T.of(T.freshName("nullable:?ref"), "Ljava/lang/Object;"));
      }
    }
    for (Lin c : cands) if (!f.st.assumeGe(c)) throw new Undecided("contradictory invariant");
    return f;
  }

  private BigInteger[] range(String cell) {
    String d = "I";
    if (cell.charAt(0) == 'L') {
      int var = Integer.parseInt(cell.substring(1));
      for (AbstractInsnNode n : g.insns) if (n instanceof VarInsnNode && ((VarInsnNode) n).var == var && (n.getOpcode() == Opcodes.LLOAD || n.getOpcode() == Opcodes.LSTORE)) d = "J";
      // a slot shared by an int and a long: the wider range is sound
    } else if (cell.charAt(0) == 'F' || cell.charAt(0) == 'S') d = "J";
    T t = T.of("range", d);
    return new BigInteger[] {t.lo, t.hi};
  }

  private final Set<Lin> guards = new HashSet<>();

  private List<Lin> candidates(Interp.Fr cur, Interp.Fr head, Interp.Res r, Set<String> changed, Map<String, T> atom, Map<String, BigInteger> iv, Lin k, T kT) {
    LinkedHashSet<Lin> out = new LinkedHashSet<>();
    guards.clear();
    Set<T> atoms = new HashSet<>(atom.values());
    Set<Lin> known = new HashSet<>(Arrays.asList(head.st.facts.ge));
    for (Interp.Fr b : r.backs) {
      Map<T, Lin> nx = next(b, changed, atom, iv, kT, k);
      List<Lin> fs = new ArrayList<>(Arrays.asList(b.st.facts.ge));
      for (Lin e : b.st.facts.eq) {
        fs.add(e);
        fs.add(e.neg());
      }
      for (Lin f : fs) {
        if (known.contains(f) || nestedAtom(f, kT, atoms)) continue;
        boolean uses = false, ok = true;
        Lin sh = f;
        for (T t : f.atoms) {
          if (t == kT) {
            uses = true;
            sh = sh.subst(kT, k.add(-1));
          } else if (atoms.contains(t)) {
            uses = true;
            Lin n = nx.get(t);
            if (n == null) ok = false;
            else {
              Lin d = n.sub(Lin.of(t));
              if (!d.isConst()) ok = false;
              else sh = sh.subst(t, Lin.of(t).sub(d));
            }
          }
        }
        if (!uses || !ok) continue;
        out.add(sh);
        guards.add(sh);
        out.add(f);
      }
    }
    // simple shapes for values that are not induction variables
    for (String c : changed) {
      T a = atom.get(c);
      if (a == null || iv.containsKey(c)) continue;
      Val v0 = c.charAt(0) == 'D' ? null : read(cur, c);
      Lin x = Lin.of(a);
      if (v0 instanceof Lin) {
        out.add(x.sub((Lin) v0));
        out.add(((Lin) v0).sub(x));
      }
      out.add(x);
      out.add(x.add(1));
      out.add(Lin.ONE.sub(x));
      for (String c2 : iv.keySet()) {
        Lin y = (Lin) read(head, c2);
        out.add(y.sub(x));
        out.add(x.sub(y));
      }
    }
    List<Lin> l = new ArrayList<>();
    for (Lin c : out) if (!c.isConst() && !nestedAtom(c, kT, atoms)) l.add(c);
    return l;
  }

  private static boolean nestedAtom(Lin f, T kT, Set<T> atoms) {
    for (T t : f.atoms) if (t != kT && !atoms.contains(t) && mentions(t, kT, atoms)) return true;
    return false;
  }

  static boolean mentions(Val v, T kT, Set<T> atoms) {
    if (v instanceof T) {
      if (v == kT || atoms.contains(v)) return true;
      for (Val x : ((T) v).args) if (mentions(x, kT, atoms)) return true;
      return false;
    }
    if (v instanceof Lin) {
      for (T t : ((Lin) v).atoms) if (mentions(t, kT, atoms)) return true;
      return false;
    }
    if (v instanceof TextV) {
      for (Seg s : ((TextV) v).segs) if (mentionsSeg(s, kT, atoms)) return true;
      return false;
    }
    if (v instanceof BigV) return mentions(((BigV) v).v, kT, atoms);
    if (v instanceof BoxV) return mentions(((BoxV) v).v, kT, atoms);
    return false;
  }

  static boolean mentionsSeg(Seg s, T kT, Set<T> atoms) {
    switch (s.k) {
      case LIT:
        return false;
      case RUN:
        return mentions(s.ch, kT, atoms) || mentions(s.n, kT, atoms);
      default:
        return mentions(s.base, kT, atoms) || mentions(s.from, kT, atoms) || mentions(s.to, kT, atoms);
    }
  }

  /** Values of the head atoms on entry. */
  private Map<T, Lin> atEntry(Interp.Fr cur, Set<String> changed, Map<String, T> atom, Map<String, BigInteger> iv, T kT) {
    Map<T, Lin> m = new HashMap<>();
    m.put(kT, Lin.ZERO);
    for (String c : changed) {
      if (c.charAt(0) == 'D') {
        HObj o = dataObj(in, cur, c);
        if (o.data instanceof Map) {
          int i = 0;
          for (Lin v : o.set().values()) {
            T a = atom.get(c + "#" + i++);
            if (a != null) m.put(a, v);
          }
        }
        continue;
      }
      T a = atom.get(c);
      Val v = read(cur, c);
      if (a != null && v instanceof Lin) m.put(a, (Lin) v);
    }
    return m;
  }

  /** Values of the head atoms in the next iteration. */
  private Map<T, Lin> next(Interp.Fr b, Set<String> changed, Map<String, T> atom, Map<String, BigInteger> iv, T kT, Lin k) {
    Map<T, Lin> m = new HashMap<>();
    m.put(kT, k.add(1));
    for (String c : changed) {
      if (c.charAt(0) == 'D') {
        HObj o = dataObj(in, b, c);
        if (o.data instanceof Map) {
          int i = 0;
          for (Lin v : o.set().values()) {
            T a = atom.get(c + "#" + i++);
            if (a != null) m.put(a, v);
          }
        }
        continue;
      }
      T a = atom.get(c);
      Val v = read(b, c);
      if (a != null && v instanceof Lin) m.put(a, (Lin) v);
    }
    return m;
  }

  private static Lin subst(Lin c, Map<T, Lin> m) {
    Lin r = Lin.of(c.c);
    for (int i = 0; i < c.atoms.length; i++) {
      Lin v = m.get(c.atoms[i]);
      if (v == null) v = Lin.of(c.atoms[i]);
      r = r.add(v.mul(c.coef[i]));
    }
    return r;
  }

  // ---- text closed forms ---------------------------------------------------------------------

  private List<Seg> textCell(Interp.Fr f, String c) {
    if (c.charAt(0) == 'D') return dataObj(in, f, c).text();
    Val v = read(f, c);
    return v instanceof TextV ? ((TextV) v).segs : null;
  }

  private java.util.function.Function<Lin, List<Seg>> guess(String c, T a, Interp.Fr cur, Interp.Res r, Interp.Fr head, Lin k, T kT) {
    boolean array = c.charAt(0) == 'D' && dataObj(in, cur, c).cls.equals("[C");
    List<Seg> s0 = textCell(cur, c);
    if (s0 == null) return null;
    if (array) return guessArray(c, a, s0, r, k, kT);
    List<Seg> h = textCell(head, c);
    List<Piece> xs = new ArrayList<>();
    for (Interp.Fr b : r.backs) {
      List<Seg> t = textCell(b, c);
      if (t == null || t.size() < h.size()) return null;
      for (int i = 0; i < h.size(); i++) if (!t.get(i).equals(h.get(i))) return null;
      xs.add(new Piece(b.st.facts, new ArrayList<>(t.subList(h.size(), t.size()))));
    }
    java.util.function.Function<Lin, List<Seg>> p = pieces(xs, a, null, null, k, kT);
    if (p == null) return null;
    return n -> Seg.concat(s0, p.apply(n));
  }

  private static final class Piece {
    final Facts f;
    final List<Seg> t;

    Piece(Facts f, List<Seg> t) {
      this.f = f;
      this.t = t;
    }
  }

  /** What n iterations append, if every iteration appends one piece of the same kind. */
  private java.util.function.Function<Lin, List<Seg>> pieces(List<Piece> xs, T acc, List<Seg> s0, Lin accShift, Lin k, T kT) {
    Set<T> own = new HashSet<>();
    own.add(acc);
    // constant runs
    boolean same = true;
    for (Piece p : xs) same &= p.t.equals(xs.get(0).t);
    List<Seg> t = xs.get(0).t;
    if (same && t.size() == 1) {
      Seg s = t.get(0);
      if (s.k == Seg.K.LIT) {
        boolean uni = true;
        for (char ch : s.lit.toCharArray()) uni &= ch == s.lit.charAt(0);
        if (uni) {
          BigInteger m = BigInteger.valueOf(s.lit.length());
          return n -> Seg.of(Seg.run(Lin.of(s.lit.charAt(0)), n.mul(m)));
        }
      }
      if (s.k == Seg.K.RUN && s.n.isConst() && !mentions(s.ch, kT, own)) return n -> Seg.of(Seg.run(s.ch, n.mul(s.n.c), s.upper));
      // one character of a slice, or a whole slice advancing
      if (s.k == Seg.K.SUB && s.from.coefOf(kT).equals(BigInteger.ONE) && s.to.sub(s.from).isConst(1) && !mentions(s.base, kT, own) && !own.contains(s.base)) {
        Lin a0 = s.from.subst(kT, Lin.ZERO);
        if (!mentions(a0, kT, own)) return n -> Seg.of(Seg.sub(s.base, a0, a0.add(n), s.upper));
      }
    }
    // single characters taken from a text at an advancing position
    T base = null;
    Lin at = null;
    boolean up = false;
    BigInteger dir = null;
    for (Piece p : xs) {
      if (p.t.size() != 1 || p.t.get(0).k != Seg.K.RUN || !p.t.get(0).n.isConst(1)) return null;
      Lin ch = p.t.get(0).ch;
      Lin src = ch;
      boolean shifted = false;
      if (src.atoms.length != 1) return null;
      if (src.c.equals(BigInteger.valueOf(-32))) {
        src = src.add(32);
        shifted = true;
      }
      T ct = src.atom();
      if (ct == null || !ct.fn.equals("CHAR") || !(ct.args.get(0) instanceof T)) return null;
      T bs = (T) ct.args.get(0);
      Lin ix = (Lin) ct.args.get(1);
      if (base == null) {
        base = bs;
        at = ix;
      } else if (base != bs || !at.equals(ix)) return null;
      if (shifted) {
        up = true;
        if (!p.f.entailsGe(src.add(-97)) || !p.f.entailsGe(Lin.of(122).sub(src))) return null;
      }
    }
    if (up)
      for (Piece p : xs) {
        Lin ch = p.t.get(0).ch;
        if (ch.c.signum() == 0 && !(p.f.entailsGe(Lin.of(96).sub(ch)) || p.f.entailsGe(ch.add(-123)))) return null;
      }
    dir = at.coefOf(kT);
    Lin a0 = at.subst(kT, Lin.ZERO);
    if (base == acc) {
      // reading the array being rewritten at the place written next
      if (s0 == null || s0.size() != 1 || s0.get(0).k != Seg.K.SUB || !a0.equals(accShift)) return null;
      base = s0.get(0).base;
      a0 = s0.get(0).from.add(a0);
      if (s0.get(0).upper) return null;
    }
    Set<T> none = new HashSet<>(own);
    if (mentions(a0, kT, none) || mentions(base, kT, none)) return null;
    final T fb = base;
    final Lin fa = a0;
    final boolean fu = up;
    if (dir.equals(BigInteger.ONE)) return n -> Seg.of(Seg.sub(fb, fa, fa.add(n), fu));
    if (dir.equals(BigInteger.ONE.negate()) && accShift != null) return n -> Seg.of(Seg.sub(fb, fa.sub(n).add(1), fa.add(1), fu));
    return null;
  }

  private java.util.function.Function<Lin, List<Seg>> guessArray(String c, T acc, List<Seg> s0, Interp.Res r, Lin k, T kT) {
    List<Piece> xs = new ArrayList<>();
    Lin pos = null;
    List<Facts> idle = new ArrayList<>();
    for (Interp.Fr b : r.backs) {
      List<Seg> t = textCell(b, c);
      if (t.size() == 1 && t.get(0).k == Seg.K.SUB && t.get(0).base == acc && !t.get(0).upper) {
        idle.add(b.st.facts); // nothing stored this time: the place keeps its character
        continue;
      }
      // SUB(acc,0,i) ++ v ++ SUB(acc,i+1,n), either slice possibly empty
      Lin off = Lin.ZERO;
      Seg v = null;
      Lin at = null;
      for (Seg s : t) {
        if (s.k == Seg.K.SUB && s.base == acc) {
          if (!b.st.facts.entailsEq(s.from.sub(off))) return null;
        } else {
          if (v != null) return null;
          v = s;
          at = off;
        }
        off = off.add(s.len());
      }
      if (v == null || !v.len().isConst(1)) return null;
      if (v.k == Seg.K.LIT) v = null == v ? null : Seg.run(Lin.of(v.lit.charAt(0)), Lin.ONE);
      if (pos == null) pos = at;
      else if (!pos.equals(at)) return null;
      xs.add(new Piece(b.st.facts, Collections.singletonList(v)));
    }
    if (pos == null) return null;
    for (Facts f : idle) xs.add(new Piece(f, Collections.singletonList(Seg.run(Terms.charAt(acc, pos), Lin.ONE))));
    BigInteger dir = pos.coefOf(kT);
    Lin a0 = pos.subst(kT, Lin.ZERO);
    java.util.function.Function<Lin, List<Seg>> p = piecesArr(xs, acc, s0, a0, k, kT);
    if (p == null) return null;
    Facts fs = r.backs.get(0).st.facts;
    if (dir.equals(BigInteger.ONE))
      return n -> {
        List<Seg> l = prefix(s0, a0, fs), t = suffix(s0, a0.add(n), fs);
        return l == null || t == null ? null : Seg.concat(Seg.concat(l, p.apply(n)), t);
      };
    if (dir.equals(BigInteger.ONE.negate()))
      return n -> {
        List<Seg> l = prefix(s0, a0.sub(n).add(1), fs), t = suffix(s0, a0.add(1), fs);
        return l == null || t == null ? null : Seg.concat(Seg.concat(l, p.apply(n)), t);
      };
    return null;
  }

  private java.util.function.Function<Lin, List<Seg>> piecesArr(List<Piece> xs, T acc, List<Seg> s0, Lin a0, Lin k, T kT) {
    boolean same = true;
    for (Piece p : xs) same &= p.t.equals(xs.get(0).t);
    Seg s = xs.get(0).t.get(0);
    Set<T> own = new HashSet<>();
    own.add(acc);
    if (same && s.k == Seg.K.RUN && !mentions(s.ch, kT, own)) return n -> Seg.of(Seg.run(s.ch, n, s.upper));
    return pieces(xs, acc, s0, a0, k, kT);
  }

  private static List<Seg> prefix(List<Seg> s, Lin to, Facts f) {
    if (s.size() == 1 && s.get(0).k != Seg.K.LIT) return one(s.get(0), Lin.ZERO, to);
    Seg.Cut c = Seg.cut(s, to, f);
    return c == null ? null : c.left;
  }

  private static List<Seg> suffix(List<Seg> s, Lin from, Facts f) {
    if (s.size() == 1 && s.get(0).k != Seg.K.LIT) return one(s.get(0), from, s.get(0).len());
    Seg.Cut c = Seg.cut(s, from, f);
    return c == null ? null : c.right;
  }

  private static List<Seg> one(Seg s, Lin from, Lin to) {
    List<Seg> r = new ArrayList<>();
    if (s.k == Seg.K.RUN) Seg.push(r, Seg.run(s.ch, to.sub(from), s.upper));
    else Seg.push(r, Seg.sub(s.base, s.from.add(from), s.from.add(to), s.upper));
    return r;
  }
}
