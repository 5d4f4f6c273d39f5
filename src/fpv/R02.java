package fpv;

import java.util.*;

/** Sequences of successful, failing and nested calls on formatters that share one thread. */
final class R02 extends Rule {
  @Override
  String explain() {
    return "Formatters with and without buffer cache, with unknown capacities, are abstractly interpreted through sequences of up to "
        + "three calls on one thread: successful calls, calls whose first or second argument throws, and calls whose argument "
        + "formats with the same, a tuned or another formatter (and possibly swallows that call's failure). Whatever came before "
        + "and whatever happens in between, the returned text must be the literal parts and this call's argument texts in order. "
        + "Every kind of character sequence and of argument is also printed after another one of its kind and must show its own text.";
  }

  private static final int[] NONE = {};

  /** One call: formatter, what the argument does, and the formatter it does it with. */
  private static final class Call {
    final int on, inner;
    final String what;

    Call(int on, String what, int inner) {
      this.on = on;
      this.what = what;
      this.inner = inner;
    }

    @Override
    public String toString() {
      return what + " on " + NAMES[on] + (inner < 0 ? "" : " by " + NAMES[inner]);
    }
  }

  private static final String[] NAMES = {"f", "tuned f", "g", "single"};
  private static final String[][] PARTS = {{"a", "b", "c"}, {"a", "b", "c"}, {"x", "yz", ""}, null};

  private Printer p;
  private Val[] formatters;
  private int serial;

  @Override
  void run() {
    List<Call> all = new ArrayList<>();
    for (int i = 0; i < 4; i++) all.add(new Call(i, "plain", -1));
    all.add(new Call(0, "fail first", -1));
    all.add(new Call(0, "fail second", -1));
    all.add(new Call(3, "fail first", -1));
    for (int i = 0; i < 4; i++) {
      all.add(new Call(0, "nested first", i));
      all.add(new Call(0, "nested second", i));
      all.add(new Call(0, "nested failing", i));
    }
    all.add(new Call(3, "nested first", 3));
    all.add(new Call(3, "nested first", 0));
    R16 seqs = new R16();
    seqs.prog = prog;
    seqs.rep = rep;
    seqs.twice("text-after-text");
    for (Entry.Kind k : Entry.KINDS) for (char c : LETTERS.toCharArray()) attempt("value-after-value", "%" + c + " of two, " + k.name, () -> values(k, c));
    for (String mode : new String[] {"plain", "cached", "cached, sized"}) {
      for (Call c : all) attempt("text", mode + ": " + c, () -> history(mode, Collections.singletonList(c)));
      for (Call b : all) for (Call c : all) attempt("text", mode + ": " + b + ", " + c, () -> history(mode, Arrays.asList(b, c)));
      for (Call a : all)
        for (Call b : all)
          if (a.what.startsWith("fail") || a.what.startsWith("nested")) attempt("text", mode + ": " + a + ", " + b + ", plain", () -> history(mode, Arrays.asList(a, b, all.get(0))));
    }
  }

  private static final String LETTERS = "dxXoufeEgacsSTp";

  /** A value printed after another one of its kind must give what it gives at first. */
  private void values(Entry.Kind a, char letter) {
    Interp in = interp(true);
    in.unrollFirst = true;
    in.hooks.add(R11::floats);
    Entry e = new Entry(in);
    Entry.Kind b = a.other("next");
    String inst = "%" + letter + " of two, " + a.name;
    List<Out> fresh = print(e, new State(), b, letter), firsts = print(e, new State(), a, letter);
    for (Out f : firsts)
      for (Out x : print(e, f.st, b, letter))
        for (Out y : fresh) {
          if (!compatible(x.st, y.st)) continue;
          Facts g = x.st.facts.and(y.st.facts);
          if (g == null) continue;
          Out joint = y.st.lossy ? y : x;
          if (x.thrown || y.thrown) {
            verdict("value-after-value", inst, joint, g, x.thrown && y.thrown && exClass(in, x).equals(exClass(in, y)), "fails or prints only after another value");
            continue;
          }
          List<Event> s = Appenders.events(x, "ACCEPT"), t = Appenders.events(y, "ACCEPT");
          if (!s.isEmpty() && !t.isEmpty()) text("value-after-value", inst, x, y.st.lossy, g, ((TextV) s.get(s.size() - 1).args.get(0)).segs, ((TextV) t.get(t.size() - 1).args.get(0)).segs);
        }
    done(in);
  }

  private static List<Out> print(Entry e, State st, Entry.Kind k, char letter) {
    List<Out> r = new ArrayList<>();
    for (Out a : e.give(st.fork(), "generic", k)) {
      if (a.thrown) r.add(a);
      else r.addAll(e.print(a, letter, Fmt.noFlags(), Fmt.UNSET, Fmt.UNSET, NullV.NULL));
    }
    return r;
  }

  private List<Out> setUp(String mode) {
    Interp in = interp(true);
    p = new Printer(in);
    serial = 0;
    formatters = new Val[4];
    State st = new State();
    Out f = p.compile(st, "a%sb%sc"), g = p.compile(f.st, "x%syz%s"), h1 = p.compile(g.st, "%s");
    List<Out> fs = new ArrayList<>();
    Lin size = Lin.of(T.of("capacity", "#", java.math.BigInteger.ONE, java.math.BigInteger.valueOf(1 << 20)));
    formatters[0] = f.val;
    formatters[2] = g.val;
    formatters[3] = h1.val;
    State s = h1.st;
    if (!mode.equals("plain")) {
      Out a = p.spec.only(p.cache(s, formatters[0]), "cache"), b = p.spec.only(p.cache(a.st, formatters[2]), "cache"), c = p.spec.only(p.cache(b.st, formatters[3]), "cache");
      formatters[0] = a.val;
      formatters[2] = b.val;
      formatters[3] = c.val;
      s = c.st;
    }
    if (mode.equals("cached, sized")) {
      for (Out o : p.capacity(s, formatters[0], size)) if (!o.thrown) fs.add(o);
    } else fs.add(new Out(s, formatters[0], false));
    List<Out> r = new ArrayList<>();
    for (Out o : fs)
      for (Out t : p.capacity(o.st, o.val, Lin.of(12345))) {
        if (t.thrown) continue;
        HObj h = new HObj("$Four").with("0", o.val).with("1", t.val).with("2", formatters[2]).with("3", formatters[3]);
        r.add(new Out(t.st, t.st.alloc(h), false));
      }
    return r;
  }

  private void history(String mode, List<Call> calls) {
    for (Out start : setUp(mode)) {
      HObj h = p.in.obj(start.st, start.val);
      for (int i = 0; i < 4; i++) formatters[i] = h.fields.get("" + i);
      List<State> states = Collections.singletonList(start.st);
      for (int i = 0; i < calls.size() && !states.isEmpty(); i++) {
        List<State> then = new ArrayList<>();
        for (State s : states) {
          if (s.facts == null) continue;
          for (Out o : call(s.fork(), calls.get(i), mode + ": " + calls.subList(0, i + 1))) then.add(o.st);
        }
        states = then;
        if (states.size() > 400) throw new Undecided("too many cases");
      }
    }
    done(p.in);
  }

  private List<Out> call(State st, Call c, String inst) {
    int n = serial++;
    T a0 = Printer.arg("arg" + n + "a"), a1 = Printer.arg("arg" + n + "b");
    Val v0 = a0, v1 = a1;
    List<Seg> t0 = Printer.text(a0), t1 = Printer.text(a1);
    Printer.Behaviour fails = (s, where) -> Collections.singletonList(p.in.raise(s, "java/lang/IllegalStateException", "an argument"));
    if (c.what.equals("fail first")) v0 = p.arg("fail" + n, fails);
    if (c.what.equals("fail second")) v1 = p.arg("fail" + n, fails);
    if (c.inner >= 0) {
      T i0 = Printer.arg("inner" + n + "a"), i1 = Printer.arg("inner" + n + "b");
      boolean bad = c.what.equals("nested failing");
      T w0 = bad && c.inner == 3 ? p.arg("innerfail" + n, fails) : i0, w1 = bad && c.inner != 3 ? p.arg("innerfail" + n, fails) : i1;
      List<Seg> inner = bad ? Seg.lit("!") : expected(c.inner, Printer.text(i0), Printer.text(i1));
      T nested = p.arg("nested" + n, (s, where) -> {
        List<Out> r = new ArrayList<>();
        for (Out o : p.format(s, formatters[c.inner], c.inner == 3 ? p.args(s, w0) : p.args(s, w0, w1))) {
          if (!o.thrown) {
            if (bad) verdict("failure-passes", inst, o, o.st.facts, false, "the failing argument of the nested call is ignored");
            else text("nested-text", inst, o, o.st.facts, p.in.models.textOf(o.st, o.val), inner);
            r.add(new Out(o.st, new TextV(p.in.models.textOf(o.st, o.val), true), false));
          } else if (bad) r.add(new Out(o.st, new TextV(inner, true), false));
          else verdict("nested-text", inst, o, o.st.facts, false, throwsText(p.in, o));
        }
        return r;
      });
      if (c.what.equals("nested second")) {
        v1 = nested;
        t1 = inner;
      } else {
        v0 = nested;
        t0 = inner;
      }
    }
    List<Out> r = new ArrayList<>();
    for (Out o : p.format(st, formatters[c.on], c.on == 3 ? p.args(st, v0) : p.args(st, v0, v1))) {
      r.add(o);
      if (c.what.startsWith("fail")) verdict("failure-passes", inst, o, o.st.facts, o.thrown, "the failing argument is ignored");
      else if (o.thrown) verdict("text", inst, o, o.st.facts, false, throwsText(p.in, o));
      else text("text", inst, o, o.st.facts, p.in.models.textOf(o.st, o.val), expected(c.on, t0, t1));
    }
    return r;
  }

  private static List<Seg> expected(int f, List<Seg> a, List<Seg> b) {
    if (f == 3) return a;
    String[] s = PARTS[f];
    return Seg.concat(Seg.concat(Seg.concat(Seg.lit(s[0]), a), Seg.concat(Seg.lit(s[1]), b)), Seg.lit(s[2]));
  }
}
