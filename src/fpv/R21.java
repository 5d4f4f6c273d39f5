package fpv;

import java.math.BigInteger;
import java.util.*;

/** Tuning calls in every order: same text, other setting kept, same object when nothing changes. */
final class R21 extends Rule {
  @Override
  String explain() {
    return "All sequences of up to three tuning calls (cache; capacities c1 and c2, arbitrary ints) on a compiled formatter are abstractly "
        + "interpreted. Every formatter obtained must print the text of the original; asking again for what is set must return the "
        + "same object, which also shows that the other setting was kept; an earlier formatter must not have become the tuned one; "
        + "a capacity below one must be rejected and others accepted.";
  }

  private static final Lin C1 = Lin.of(T.of("c1", "I")), C2 = Lin.of(T.of("c2", "I"));

  private Printer p;

  /** Formatters so far with what is known to be set: cache flag and capacity (null when never set). */
  private static final class Tuned {
    final Val f;
    final boolean cache;
    final Lin cap;
    final String name;

    Tuned(Val f, boolean cache, Lin cap, String name) {
      this.f = f;
      this.cache = cache;
      this.cap = cap;
      this.name = name;
    }
  }

  @Override
  void run() {
    for (String a : new String[] {"k", "1", "2"}) {
      seq(a);
      for (String b : new String[] {"k", "1", "2"}) {
        seq(a + b);
        for (String c : new String[] {"k", "1", "2"}) seq(a + b + c);
      }
    }
  }

  private void seq(String calls) {
    attempt("same-text", calls, () -> {
      Interp in = interp(true);
      p = new Printer(in);
      Out f = p.compile(new State(), "a%sb%sc");
      go(f.st, Collections.singletonList(new Tuned(f.val, false, null, "f")), calls);
      done(in);
    });
  }

  private void go(State st, List<Tuned> made, String calls) {
    Tuned last = made.get(made.size() - 1);
    if (calls.isEmpty()) {
      check(st, made);
      return;
    }
    char c = calls.charAt(0);
    Lin cap = c == '1' ? C1 : C2;
    String name = last.name + (c == 'k' ? ".cache()" : ".capacity(c" + c + ")");
    for (Out o : c == 'k' ? p.cache(st.fork(), last.f) : p.capacity(st.fork(), last.f, cap)) {
      if (c == 'k') {
        if (o.thrown) {
          verdict("accepted", name, o, o.st.facts, false, throwsText(p.in, o));
          continue;
        }
        if (last.cache) identical(name, o, o.val, last, true);
        else identical(name, o, o.val, last, false);
      } else {
        if (o.thrown) {
          Facts bad = o.st.facts.andGe(cap.add(-1));
          verdict("accepted", name, o, bad == null ? o.st.facts : bad, bad == null, throwsText(p.in, o) + " for a positive capacity");
          continue;
        }
        Facts bad = o.st.facts.andGe(cap.neg());
        verdict("rejected", name, o, bad == null ? o.st.facts : bad, bad == null, "a capacity below one is accepted");
        if (last.cap != null) {
          Facts same = o.st.facts.andEq(cap.sub(last.cap)), other = o.st.facts.andNe(cap.sub(last.cap));
          if (same != null) identical(name, new Out(with(o.st, same), o.val, false), o.val, last, true);
          if (other != null) identical(name, new Out(with(o.st, other), o.val, false), o.val, last, false);
        }
      }
      List<Tuned> next = new ArrayList<>(made);
      next.add(new Tuned(o.val, last.cache || c == 'k', c == 'k' ? last.cap : cap, name));
      go(o.st, next, calls.substring(1));
    }
  }

  private static State with(State st, Facts f) {
    State s = st.fork();
    s.facts = f;
    return s;
  }

  private void identical(String name, Out o, Val got, Tuned was, boolean wanted) {
    if (!(got instanceof ObjV) || !(was.f instanceof ObjV)) {
      rep.undecided("same-formatter", name, "" + got);
      return;
    }
    verdict("same-formatter", name, o, o.st.facts, got.equals(was.f) == wanted, wanted ? "another formatter although nothing changes" : "the same formatter although a setting changes");
  }

  /** Each formatter prints the text, and still has its settings. */
  private void check(State st, List<Tuned> made) {
    for (Tuned t : made) {
      State s = st.fork();
      T a = Printer.arg("arg0"), b = Printer.arg("arg1");
      List<Seg> want = Seg.concat(Seg.concat(Seg.concat(Seg.lit("a"), Printer.text(a)), Seg.concat(Seg.lit("b"), Printer.text(b))), Seg.lit("c"));
      for (Out o : p.format(s, t.f, p.args(s, a, b))) {
        if (o.thrown) verdict("same-text", t.name, o, o.st.facts, false, throwsText(p.in, o));
        else text("same-text", t.name, o, o.st.facts, p.in.models.textOf(o.st, o.val), want);
      }
      for (Out o : p.cache(st.fork(), t.f)) if (!o.thrown) identical(t.name + ", later .cache()", o, o.val, t, t.cache);
      if (t.cap != null)
        for (Out o : p.capacity(st.fork(), t.f, t.cap)) {
          if (o.thrown) verdict("accepted", t.name, o, o.st.facts, false, throwsText(p.in, o));
          else identical(t.name + ", again the capacity", o, o.val, t, true);
        }
    }
  }
}
