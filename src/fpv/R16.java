package fpv;

import java.math.BigInteger;
import java.util.*;
import org.objectweb.asm.Opcodes;

/** All views of a character sequence agree. */
class R16 extends Rule {
  private static final String SEQ = Spec.P + "seq/Seq", LSEQ = Spec.LSEQ, ATOM = "L" + Spec.P + "seq/AtomicSeq;";
  private static final BigInteger BIG = BigInteger.valueOf(1 << 20);

  @Override
  String explain() {
    return "The sequence classes are abstractly interpreted on unknown texts, arrays, indices and counts. Every way of building a sequence (wrap, ch, "
        + "repeated, forArray, lazy, concat, append, prepend, join, nested up to two levels), followed by cutting, upper-casing or both, "
        + "stands for a known text; length, isEmpty, charAt at an unknown index, indexOf of an unknown character, startsWith, toString and both appendTo must show exactly that text.";
  }

  /** A sequence built on some path and the text it stands for. */
  static final class Built {
    final State st;
    final Val seq;
    final List<Seg> text;

    Built(State st, Val seq, List<Seg> text) {
      this.st = st;
      this.seq = seq;
      this.text = text;
    }
  }

  private interface Maker {
    List<Built> make(State st);
  }

  Interp in;
  Spec spec;
  private final Map<String, Maker> shapes = new LinkedHashMap<>();

  private static Lin num(String n) {
    return Lin.of(T.of(n, "#", BigInteger.ZERO, BIG));
  }

  private static T str(State st, String n) {
    T t = T.of(n, Models.STR);
    st.assumeGe(Lin.of(BIG).sub(Terms.len(t)));
    return t;
  }

  private List<Built> of(String inst, List<Out> outs, List<Seg> text) {
    List<Built> r = new ArrayList<>();
    for (Out o : outs)
      if (o.thrown) verdict("no-failure", inst, o, o.st.facts, false, throwsText(in, o));
      else r.add(new Built(o.st, o.val, text));
    return r;
  }

  private void atoms(String p) {
    shapes.put("wrap" + p, st -> {
      T s = str(st, "str" + p);
      return of("wrap", spec.call(st, SEQ, "wrap", "(Ljava/lang/String;)" + ATOM, s), Seg.whole(s));
    });
    shapes.put("wrapFromTo" + p, st -> {
      T s = str(st, "str" + p);
      Lin a = num("from" + p), b = num("to" + p);
      st.assumeGe(b.sub(a));
      st.assumeGe(Terms.len(s).sub(b));
      return of("wrap", spec.call(st, SEQ, "wrap", "(Ljava/lang/String;II)" + ATOM, s, a, b), Seg.of(Seg.sub(s, a, b, false)));
    });
    shapes.put("wrapFrom" + p, st -> {
      T s = str(st, "str" + p);
      Lin a = num("from" + p);
      st.assumeGe(Terms.len(s).sub(a));
      return of("wrap", spec.call(st, SEQ, "wrap", "(Ljava/lang/String;I)" + ATOM, s, a), Seg.of(Seg.sub(s, a, Terms.len(s), false)));
    });
    shapes.put("ch" + p, st -> {
      Lin c = Lin.of(T.of("ch" + p, "C"));
      return of("ch", spec.call(st, SEQ, "ch", "(C)" + ATOM, c), Seg.of(Seg.run(c, Lin.ONE)));
    });
    shapes.put("repeated" + p, st -> {
      Lin c = Lin.of(T.of("ch" + p, "C"));
      Lin n = num("count" + p);
      st.assumeGe(n.add(-1));
      return of("repeated", spec.call(st, SEQ, "repeated", "(CI)" + ATOM, c, n), Seg.of(Seg.run(c, n)));
    });
    shapes.put("array" + p, st -> {
      T s = str(st, "chars" + p);
      Val arr = st.alloc(new HObj("[C", Collections.emptyMap(), Seg.whole(s), null));
      Lin a = num("start" + p), n = num("n" + p);
      st.assumeGe(Terms.len(s).sub(a).sub(n));
      return of("forArray", spec.call(st, SEQ, "forArray", "([CII)" + ATOM, arr, a, n), Seg.of(Seg.sub(s, a, a.add(n), false)));
    });
    shapes.put("wholeArray" + p, st -> {
      T s = str(st, "chars" + p);
      Val arr = st.alloc(new HObj("[C", Collections.emptyMap(), Seg.whole(s), null));
      return of("forArray", spec.call(st, SEQ, "forArray", "([C)" + ATOM, arr), Seg.whole(s));
    });
    shapes.put("lazy" + p, st -> {
      T s = str(st, "lazy" + p);
      Map<String, Val> f = new HashMap<>();
      f.put("text", s);
      Val act = st.alloc(new HObj("$Action", f, null, null));
      return of("lazy", spec.call(st, SEQ, "lazy", "(Ljava/util/function/Consumer;I)" + ATOM, act, Terms.len(s)), Seg.whole(s));
    });
    shapes.put("empty" + p, st -> of("empty", spec.call(st, SEQ, "empty", "()" + ATOM), Collections.emptyList()));
  }

  private static List<Out> hook(Interp in, State st, String owner, String name, String desc, List<Val> a, String where) {
    HObj h = a.isEmpty() ? null : in.obj(st, a.get(0));
    if (h == null || !h.cls.equals("$Action")) return null;
    if (owner.startsWith("io/fastprintf/")) return null;
    if (!name.equals("accept")) throw new Undecided("consumer method " + name);
    HObj b = in.obj(st, a.get(1));
    if (!Models.isText(b)) throw new Undecided("lazy action on " + a.get(1));
    in.put(st, a.get(1), b.withData(Seg.concat(b.text(), Seg.whole((T) h.fields.get("text")))));
    return Out.ret(st, null);
  }

  private Maker binary(String how, Maker x, Maker y) {
    return st -> {
      List<Built> r = new ArrayList<>();
      for (Built a : x.make(st))
        for (Built b : y.make(a.st)) {
          List<Out> o =
              how.equals("concat")
                  ? spec.call(b.st, SEQ, "concat", "(" + LSEQ + LSEQ + ")" + LSEQ, a.seq, b.seq)
                  : how.equals("append") ? virt(b.st, "append", "(" + LSEQ + ")" + LSEQ, a.seq, b.seq) : virt(b.st, "prepend", "(" + LSEQ + ")" + LSEQ, b.seq, a.seq);
          r.addAll(of(how, o, Seg.concat(a.text, b.text)));
        }
      return r;
    };
  }

  private Maker join(Maker... ms) {
    return st -> {
      List<Built> cur = new ArrayList<>();
      cur.add(new Built(st, null, Collections.emptyList()));
      Map<Built, List<Val>> parts = new IdentityHashMap<>();
      parts.put(cur.get(0), new ArrayList<>());
      for (Maker m : ms) {
        List<Built> next = new ArrayList<>();
        for (Built c : cur)
          for (Built b : m.make(c.st)) {
            Built n = new Built(b.st, null, Seg.concat(c.text, b.text));
            List<Val> l = new ArrayList<>(parts.get(c));
            l.add(b.seq);
            parts.put(n, l);
            next.add(n);
          }
        cur = next;
      }
      List<Built> r = new ArrayList<>();
      for (Built c : cur) {
        Val list = c.st.alloc(new HObj("java/util/ArrayList", Collections.emptyMap(), parts.get(c), null));
        r.addAll(of("join", spec.call(c.st, SEQ, "join", "(Ljava/util/List;)" + LSEQ, list), c.text));
      }
      return r;
    };
  }

  List<Out> virt(State st, String name, String desc, Val... a) {
    return in.invoke(st, Opcodes.INVOKEINTERFACE, SEQ, name, desc, new ArrayList<>(Arrays.asList(a)), "view");
  }

  /** Any atomic sequence whose views agree. */
  private Maker any(String n) {
    return st -> {
      T s = str(st, n);
      return Collections.singletonList(new Built(st, new TextV(Seg.whole(s), true), Seg.whole(s)));
    };
  }

  @Override
  void run() {
    start();
    atoms("");
    for (Map.Entry<String, Maker> e : shapes.entrySet()) shape(e.getKey(), e.getValue());
    done(in);
    shapes.clear();
    start();
    in.modelAtoms = true;
    Maker a = any("a"), b = any("b"), c = any("c"), d = any("d");
    Maker none = st -> of("empty", spec.call(st, SEQ, "empty", "()" + ATOM), Collections.emptyList());
    for (String how : new String[] {"concat", "append", "prepend"}) {
      shapes.put(how + "(a,b)", binary(how, a, b));
      shapes.put(how + "(empty,b)", binary(how, none, b));
      shapes.put(how + "(a,empty)", binary(how, a, none));
      shapes.put(how + "(concat(a,b),c)", binary(how, binary("concat", a, b), c));
      shapes.put(how + "(a,concat(b,c))", binary(how, a, binary("concat", b, c)));
      shapes.put(how + "(a,join(b,c))", binary(how, a, join(b, c)));
      shapes.put(how + "(join(a,b),c)", binary(how, join(a, b), c));
    }
    shapes.put("concat(concat(a,b),concat(c,d))", binary("concat", binary("concat", a, b), binary("concat", c, d)));
    shapes.put("join()", join());
    shapes.put("join(a)", join(a));
    shapes.put("join(a,b)", join(a, b));
    shapes.put("join(a,b,c)", join(a, b, c));
    for (Map.Entry<String, Maker> e : shapes.entrySet()) shape(e.getKey(), e.getValue());
    done(in);
  }

  /** Sequences of cutting (s) and upper-casing (u) applied to each shape. */
  String[] operations() {
    return new String[] {"", "u", "s", "us", "su", "ss"};
  }

  void start() {
    in = interp(false);
    in.hooks.add(R16::hook);
    spec = new Spec(in);
  }

  private void shape(String name, Maker m) {
    if (!name.matches(System.getProperty("fpv.only", ".*"))) return;
    for (String ops : operations()) {
      String inst = name + (ops.isEmpty() ? "" : ", " + ops.replace("s", "C").replace("u", "upper-cased ").replace("C", "cut "));
      attempt("views", inst, () -> {
        in.steps = 0;
        List<Built> cur = m.make(new State());
        for (int i = 0; i < ops.length(); i++) {
          List<Built> next = new ArrayList<>();
          for (Built b : cur) next.addAll(ops.charAt(i) == 'u' ? upper(inst, b) : cut(inst, b, i));
          cur = next;
        }
        for (Built b : cur) views(inst, b);
      });
    }
  }

  /** Each kind of sequence is printed, then another one of its kind: the second text must be its own. */
  void twice(String rule) {
    start();
    atoms("1");
    Map<String, Maker> first = new LinkedHashMap<>(shapes);
    shapes.clear();
    atoms("2");
    List<Maker> second = new ArrayList<>(shapes.values());
    shapes.clear();
    int i = 0;
    for (Map.Entry<String, Maker> e : first.entrySet()) {
      Maker m = second.get(i++);
      for (String view : new String[] {"toString", "appendTo"})
        for (boolean up : new boolean[] {false, true}) {
          if (up && (e.getKey().startsWith("ch1") || e.getKey().startsWith("repeated"))) continue;
          String inst = view + " of two, " + e.getKey().replace("1", "") + (up ? ", upper-cased" : "");
          attempt(rule, inst, () -> {
            in.steps = 0;
            for (Built a : e.getValue().make(new State()))
              for (Out p : print(view, up, a, inst)) {
                if (p.thrown) continue;
                for (Built b : m.make(p.st))
                  for (Out q : print(view, up, b, inst)) if (ok(rule, inst, q)) {
                      List<Seg> got = in.models.textOf(q.st, q.val);
                      equal(rule, inst, q, q.st.facts, Seg.len(got), Seg.len(b.text), "length of the second text");
                      text(rule, inst, q, q.st.facts, got, up ? Seg.upper(b.text) : b.text);
                    }
              }
          });
        }
    }
    done(in);
  }

  private List<Out> print(String view, boolean up, Built b, String inst) {
    List<Out> r = new ArrayList<>();
    for (Built u : up ? upper(inst, b) : Collections.singletonList(b)) {
      if (view.equals("toString")) {
        r.addAll(virt(u.st, "toString", "()Ljava/lang/String;", u.seq));
        continue;
      }
      Val sb = u.st.alloc(new HObj(Models.SB, Collections.emptyMap(), Seg.lit(""), null));
      for (Out o : virt(u.st, "appendTo", "(Ljava/lang/StringBuilder;)V", u.seq, sb)) r.add(o.thrown ? o : new Out(o.st, sb, false));
    }
    return r;
  }

  private List<Built> upper(String inst, Built b) {
    return of(inst, virt(b.st, "upperCase", "()" + LSEQ, b.seq), Seg.upper(b.text));
  }

  private List<Built> cut(String inst, Built b, int i) {
    List<Built> r = new ArrayList<>();
    Lin x = num("cutFrom" + i), y = num("cutTo" + i);
    State st = b.st.withGe(y.sub(x));
    st = st == null ? null : st.withGe(Seg.len(b.text).sub(y));
    if (st == null) return r;
    for (Out ref : in.models.slice(st, b.text, x, y, false, "java/lang/IndexOutOfBoundsException", "reference")) {
      if (ref.thrown) continue;
      r.addAll(of(inst, virt(ref.st, "subSequence", "(II)" + LSEQ, b.seq, x, y), ((TextV) ref.val).segs));
    }
    return r;
  }

  void views(String inst, Built b) {
    Lin len = Seg.len(b.text);
    view("length", inst, () -> {
      for (Out o : virt(b.st.fork(), "length", "()I", b.seq)) if (ok("length", inst, o)) equal("length", inst, o, o.st.facts, (Lin) o.val, len, "length");
    });
    view("isEmpty", inst, () -> {
      for (Out o : virt(b.st.fork(), "isEmpty", "()Z", b.seq))
        if (ok("isEmpty", inst, o)) {
          Facts bad = ((Lin) o.val).equals(Lin.ONE) ? o.st.facts.andGe(len.add(-1)) : o.st.facts.andEq(len);
          verdict("isEmpty", inst, o, bad, bad == null, "isEmpty() is " + o.val + " for a text of length " + len);
        }
    });
    view("toString", inst, () -> {
      for (Out o : virt(b.st.fork(), "toString", "()Ljava/lang/String;", b.seq)) if (ok("toString", inst, o)) text("toString", inst, o, o.st.facts, in.models.textOf(o.st, o.val), b.text);
    });
    view("appendTo(StringBuilder)", inst, () -> {
      State st = b.st.fork();
      T before = T.of("before", Models.STR);
      Val sb = st.alloc(new HObj(Models.SB, Collections.emptyMap(), Seg.whole(before), null));
      for (Out o : virt(st, "appendTo", "(Ljava/lang/StringBuilder;)V", b.seq, sb))
        if (ok("appendTo(StringBuilder)", inst, o)) text("appendTo(StringBuilder)", inst, o, o.st.facts, in.obj(o.st, sb).text(), Seg.concat(Seg.whole(before), b.text));
    });
    view("appendTo(Appendable)", inst, () -> {
      State st = b.st.fork();
      Val app = in.models.symbolicAppendable(st, "out");
      for (Out o : virt(st, "appendTo", "(Ljava/lang/Appendable;)V", b.seq, app)) {
        if (o.thrown && in.classOf(o.st, o.val).equals("java/io/IOException")) continue;
        if (ok("appendTo(Appendable)", inst, o)) text("appendTo(Appendable)", inst, o, o.st.facts, in.obj(o.st, app).text(), b.text);
      }
    });
    view("charAt", inst, () -> {
      Lin i = num("index");
      State st = b.st.withGe(len.sub(i).add(-1));
      if (st == null) return;
      for (Out ref : in.models.charAt(st, b.text, i))
        for (Out o : virt(ref.st, "charAt", "(I)C", b.seq, i)) if (ok("charAt", inst, o)) equal("charAt", inst, o, o.st.facts, (Lin) o.val, (Lin) ref.val, "character at the index");
    });
    view("startsWith", inst, () -> {
      Lin c = Lin.of(T.of("probe", "C"));
      for (Out o : virt(b.st.fork(), "startsWith", "(C)Z", b.seq, c)) {
        if (!ok("startsWith", inst, o)) continue;
        State some = o.st.withGe(len.add(-1));
        if (some == null) {
          verdict("startsWith", inst, o, o.st.facts, o.val.equals(Lin.ZERO), "an empty sequence starts with something");
          continue;
        }
        for (Out ref : in.models.charAt(some, b.text, Lin.ZERO)) {
          Facts bad = o.val.equals(Lin.ONE) ? ref.st.facts.andNe(((Lin) ref.val).sub(c)) : ref.st.facts.andEq(((Lin) ref.val).sub(c));
          verdict("startsWith", inst, ref, bad, bad == null, "startsWith is " + o.val);
        }
      }
    });
    Lin c = Lin.of(T.of("probe", "C"));
    view("indexOf", inst, () -> {
      for (Out o : virt(b.st.fork(), "indexOf", "(C)I", b.seq, c)) {
        if (!ok("indexOf", inst, o)) continue;
        Lin i = (Lin) o.val;
        State some = o.st.withNe(i.add(1));
        if (some == null) continue;
        Facts lo = some.facts.andGe(i.neg().add(-1)), hi = some.facts.andGe(i.sub(len));
        verdict("indexOf", inst, o, lo != null ? lo : hi, lo == null && hi == null, "index " + i + " in a text of length " + len);
        some = some.withGe(i);
        some = some == null ? null : some.withGe(len.sub(i).add(-1));
        if (some == null) continue;
        for (Out ref : in.models.charAt(some, b.text, i)) equal("indexOf", inst, ref, ref.st.facts, (Lin) ref.val, c, "character at the index found");
      }
    });
    for (int n = 0; n <= SEARCHED; n++) {
      int m = n;
      view("indexOf in a short text", inst, () -> {
        State st = b.st.withEq(len.add(-m));
        if (st == null) return;
        in.unrollFirst = in.exactSearch = true;
        try {
          for (Out ref : first(st, b.text, c, 0, m))
            for (Out o : virt(ref.st, "indexOf", "(C)I", b.seq, c))
              if (ok("indexOf in a short text", inst, o)) equal("indexOf in a short text", inst, o, o.st.facts, (Lin) o.val, (Lin) ref.val, "index of the character in a text of length " + m);
        } finally {
          in.unrollFirst = in.exactSearch = false;
        }
      });
    }
  }

  private static final int SEARCHED = 2;

  /** First place of a character in a text of n characters, place by place. */
  private List<Out> first(State st, List<Seg> text, Lin c, int from, int n) {
    List<Out> r = new ArrayList<>();
    if (from == n) {
      r.add(new Out(st, Lin.of(-1), false));
      return r;
    }
    for (Out o : in.models.charAt(st, text, Lin.of(from))) {
      Lin d = ((Lin) o.val).sub(c);
      State e = o.st.withEq(d), ne = o.st.withNe(d);
      if (e != null) r.add(new Out(e, Lin.of(from), false));
      if (ne != null) r.addAll(first(ne, text, c, from + 1, n));
    }
    return r;
  }

  void view(String rule, String inst, Runnable body) {
    attempt(rule, inst, body);
  }

  boolean ok(String rule, String inst, Out o) {
    if (o.thrown) verdict(rule, inst, o, o.st.facts, false, throwsText(in, o));
    return !o.thrown;
  }
}
