package fpv;

import java.util.*;

/** Destinations: append only, same object, same text, failures passed on. */
final class R20 extends Rule {
  @Override
  String explain() {
    return "Formatting into a destination of unknown class, and into a string builder with unknown content, is abstractly "
        + "interpreted for formats with zero to three pieces and arbitrary argument texts; every append to a destination other "
        + "than a string builder may fail. The appended text must be the text of the plain call, the destination must be "
        + "returned, nothing but append may be called on it, and a failure must end the call with an unchecked exception whose "
        + "cause chain holds the I/O error, without further appends. The sequence classes' appendTo is checked for the same.";
  }

  private static final String[] FORMATS = {"", "x", "%s", "a%sb", "%s%s", "a%sb%sc"};

  @Override
  void run() {
    for (String f : FORMATS)
      for (boolean cached : new boolean[] {false, true}) {
        String inst = '"' + f + '"' + (cached ? ", cached" : "");
        attempt("same-text", inst, () -> builder(f, cached, inst));
        attempt("same-text", inst, () -> any(f, cached, inst));
        attempt("plain-call", inst, () -> plain(f, cached, inst));
      }
    Sequences q = new Sequences();
    q.prog = prog;
    q.rep = rep;
    q.run();
    for (String way : new String[] {"format(Object...)"}) attempt("plain-call", way, this::varargs);
  }

  private Printer p;
  private Val formatter, args;
  private State st;
  private List<Seg> want;

  private void setUp(String format, boolean cached) {
    Interp in = interp(true);
    p = new Printer(in);
    Out f = p.compile(new State(), format);
    if (cached) f = p.spec.only(p.cache(f.st, f.val), "cache");
    st = f.st;
    formatter = f.val;
    List<Val> a = new ArrayList<>();
    want = Seg.lit("");
    for (int i = 0; i < format.length(); i++) {
      if (format.charAt(i) != '%') want = Seg.concat(want, Seg.lit("" + format.charAt(i)));
      else {
        T t = Printer.arg("arg" + a.size());
        a.add(t);
        want = Seg.concat(want, Printer.text(t));
        i++;
      }
    }
    args = p.args(st, a.toArray(new Val[0]));
  }

  private void plain(String format, boolean cached, String inst) {
    setUp(format, cached);
    for (Out o : p.format(st, formatter, args)) {
      if (o.thrown) verdict("plain-call", inst, o, o.st.facts, false, throwsText(p.in, o));
      else text("plain-call", inst, o, o.st.facts, p.in.models.textOf(o.st, o.val), want);
    }
    done(p.in);
  }

  private void varargs() {
    setUp("a%sb%sc", false);
    T x = T.of("x", Models.STR), y = T.of("y", Models.STR);
    Val array = st.alloc(new HObj("[Ljava/lang/Object;", Collections.emptyMap(), new ArrayList<>(Arrays.asList(x, y)), null));
    List<Seg> w = Seg.concat(Seg.concat(Seg.concat(Seg.lit("a"), Seg.whole(x)), Seg.concat(Seg.lit("b"), Seg.whole(y))), Seg.lit("c"));
    for (Out o : p.virt(st, "format", "([Ljava/lang/Object;)Ljava/lang/String;", formatter, array)) {
      if (o.thrown) verdict("plain-call", "format(Object...)", o, o.st.facts, false, throwsText(p.in, o));
      else text("plain-call", "format(Object...)", o, o.st.facts, p.in.models.textOf(o.st, o.val), w);
    }
    done(p.in);
  }

  private void builder(String format, boolean cached, String inst) {
    setUp(format, cached);
    T before = T.of("before", Models.STR);
    for (String cls : new String[] {Models.SB, "java/lang/StringBuffer"}) {
      State s = st.fork();
      Val sb = s.alloc(new HObj(cls, Collections.emptyMap(), Seg.whole(before), null));
      for (Out o : p.format(s, formatter, sb, args)) {
        if (o.thrown) {
          verdict("same-text", inst, o, o.st.facts, false, throwsText(p.in, o));
          continue;
        }
        text("same-text", inst + ", " + cls, o, o.st.facts, p.in.obj(o.st, sb).text(), Seg.concat(Seg.whole(before), want));
        same(inst, o, sb);
      }
    }
    done(p.in);
  }

  private void same(String inst, Out o, Val dest) {
    if (T.isOpaque(o.val)) rep.undecided("same-object", inst, "" + o.val);
    else verdict("same-object", inst, o, o.st.facts, o.val.equals(dest), "returns " + o.val + " instead of the destination");
  }

  private void any(String format, boolean cached, String inst) {
    setUp(format, cached);
    for (Out o : p.format(st, formatter, Printer.DEST, args)) {
      Val error = null;
      boolean after = false;
      for (Event e : o.st.events) {
        if (e.kind.equals("CHANGE")) verdict("append-only", inst, o, o.st.facts, false, e.args.get(0) + " called on the destination at " + e.where);
        if (e.kind.equals("IOERROR")) {
          after |= error != null;
          if (error == null) error = e.args.get(0);
        }
        if (e.kind.equals("APPEND") && error != null) after = true;
      }
      rep.proved("append-only", inst);
      if (error == null) {
        if (o.thrown) verdict("same-text", inst, o, o.st.facts, false, throwsText(p.in, o));
        else {
          text("same-text", inst, o, o.st.facts, Printer.appended(o.st), want);
          same(inst, o, Printer.DEST);
        }
        continue;
      }
      verdict("io-error", inst, o, o.st.facts, !after, "appends again after an I/O error");
      verdict("io-error", inst, o, o.st.facts, o.thrown, "an I/O error of the destination is swallowed");
      if (!o.thrown) continue;
      verdict("io-error", inst, o, o.st.facts, p.in.prog.isSub(exClass(p.in, o), "java/lang/RuntimeException"), throwsText(p.in, o) + " for an I/O error");
      Val e = o.val;
      boolean found = e.equals(error), known = true;
      for (int i = 0; i < 5 && !found; i++) {
        HObj h = p.in.obj(o.st, e);
        if (h == null) {
          known = e instanceof NullV;
          break;
        }
        Val c = h.fields.get("$cause");
        if (c == null) break;
        e = p.in.models.deref(o.st, c);
        found = e.equals(error);
      }
      if (found || known) verdict("io-error", inst, o, o.st.facts, found, throwsText(p.in, o) + " without the I/O error as its cause");
      else rep.undecided("io-error", inst, "cause " + e);
    }
    done(p.in);
  }

  /** appendTo of every kind of sequence on a destination that may fail. */
  private static final class Sequences extends R16 {
    @Override
    String[] operations() {
      return new String[] {"", "u", "s"};
    }

    @Override
    void start() {
      super.start();
      in.models.ioThrows = true;
    }

    @Override
    void views(String inst, Built b) {
      view("appendTo", inst, () -> {
        State st = b.st.fork();
        Val app = in.models.symbolicAppendable(st, "out");
        for (Out o : virt(st, "appendTo", "(Ljava/lang/Appendable;)V", b.seq, app)) {
          Event error = null;
          for (Event e : o.st.events) {
            if (e.kind.equals("IOERROR")) error = e;
            if (e.kind.equals("AGAIN")) verdict("appendTo", inst, o, o.st.facts, false, "appends at " + e.where + " after an I/O error");
          }
          if (error != null) {
            verdict("appendTo", inst, o, o.st.facts, o.thrown, "an I/O error at " + error.where + " is swallowed");
            if (o.thrown) verdict("appendTo", inst, o, o.st.facts, exClass(in, o).equals("java/io/IOException"), throwsText(in, o) + " for an I/O error");
          } else if (ok("appendTo", inst, o)) text("appendTo", inst, o, o.st.facts, in.obj(o.st, app).text(), b.text);
        }
      });
    }
  }
}
