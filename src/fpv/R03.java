package fpv;

import java.util.*;

/** Use of the argument list: one argument per star and conversion, in order, PrintfException when one is missing. */
final class R03 extends Rule {
  @Override
  String explain() {
    return "For every conversion letter, all flags and each kind of width and precision (absent, number, '*') the directive is "
        + "abstractly interpreted on an argument list of unknown length and content. The recorded events must be the fetches of arguments "
        + "0, 1, ... for the stars and the conversion, each once and in order, then one output computed from the last fetched argument "
        + "and the star values; with fewer arguments the library's exception before any output. With two stars the first must "
        + "be the width and the second the precision. Literal text must fetch nothing.";
  }

  @Override
  void run() {
    for (char l : Appenders.LETTERS.toCharArray())
      for (int k = 0; k < 9; k++) {
        int kw = k / 3, kp = k % 3;
        String inst = "%" + new String[] {"", "*", "W"}[kw] + new String[] {"", ".*", ".P"}[kp] + l;
        attempt("arguments-in-order", inst, () -> directive(inst, l, kw, kp));
      }
    R07 stars = new R07();
    stars.prog = prog;
    stars.rep = rep;
    for (char l : "ds".toCharArray()) attempt("width-star-first", "%*.*" + l, () -> stars.star("width-star-first", "width-star-first", "%*.*" + l, l, true, true));
    attempt("literal-takes-none", "literal text", this::literal);
  }

  private void directive(String inst, char l, int kw, int kp) {
    Interp in = interp(true);
    Appenders a = new Appenders(in);
    Lin w = kw == 0 ? Fmt.UNSET : kw == 1 ? Appenders.PRECEDING : given("width");
    Lin p = kp == 0 ? Fmt.UNSET : kp == 1 ? Appenders.PRECEDING : given("prec");
    int stars = (kw == 1 ? 1 : 0) + (kp == 1 ? 1 : 0);
    List<Out> outs = a.append(l, Spec.symbolicFlags(), w, p, NullV.NULL);
    for (Out o : outs) {
      List<Event> next = Appenders.events(o, "NEXT"), acc = Appenders.events(o, "ACCEPT");
      Facts f = o.st.facts;
      boolean missing = f.andGe(Appenders.COUNT.add(-stars - 1)) == null;
      boolean ordered = true;
      for (int i = 0; i < next.size(); i++) ordered &= next.get(i).args.get(0).equals(Lin.of(i));
      String problem = null;
      if (o.thrown) {
        if (!acc.isEmpty()) problem = "output before the failure";
        else if (missing && !a.printfException(o)) problem = "a missing argument gives " + throwsText(in, o);
        else if (exClass(in, o).equals("java/util/NoSuchElementException")) problem = "the argument list is read past its end: " + throwsText(in, o);
        else if (next.size() > stars + 1) problem = next.size() + " arguments fetched instead of " + (stars + 1);
      } else {
        if (missing) problem = "no failure although an argument is missing";
        else if (next.size() != stars + 1) problem = next.size() + " arguments fetched instead of " + (stars + 1);
        else if (acc.size() != 1) problem = acc.size() + " pieces of output instead of one";
        else if (!uses(acc.get(0), stars, kw, kp, l)) problem = "the output is computed from the wrong argument: " + cut("" + acc.get(0).args.get(0));
      }
      if (!ordered) problem = "arguments fetched out of order";
      if (problem == null) rep.proved("arguments-in-order", inst);
      else if (solid(o.st, f)) rep.refuted("arguments-in-order", inst, where(o), problem, "for example: " + witness(f));
      else rep.undecided("arguments-in-order", inst, problem);
    }
    done(in);
  }

  private static Lin given(String n) {
    return Lin.of(T.of(n, "#", java.math.BigInteger.ZERO, java.math.BigInteger.valueOf(Spec.MAX)));
  }

  /** Characters come from the last argument only; the star arguments enter through asInt. */
  private boolean uses(Event acc, int stars, int kw, int kp, char l) {
    for (int i = 0; i <= stars; i++) {
      Set<String> how = new HashSet<>();
      for (Seg s : ((TextV) acc.args.get(0)).segs) uses(s, Appenders.arg(i), how);
      if (i < stars && !(how.isEmpty() || how.equals(Collections.singleton(".asInt")))) return false;
      if (i == stars && how.contains(".asInt")) return false;
    }
    return true;
  }

  private void uses(Seg s, T arg, Set<String> how) {
    if (s.k == Seg.K.SUB) {
      uses((Val) s.base, arg, how);
      uses(s.from, arg, how);
      uses(s.to, arg, how);
    } else if (s.k == Seg.K.RUN) {
      uses(s.ch, arg, how);
      uses(s.n, arg, how);
    }
  }

  private void uses(Val v, T arg, Set<String> how) {
    if (v instanceof Lin) for (T t : ((Lin) v).atoms) uses(t, arg, how);
    else if (v instanceof TextV) for (Seg s : ((TextV) v).segs) uses(s, arg, how);
    else if (v instanceof T)
      for (Val x : ((T) v).args) {
        if (x == arg) how.add(((T) v).fn);
        uses(x, arg, how);
      }
  }

  private void literal() {
    Interp in = interp(true);
    Appenders a = new Appenders(in);
    String cls = Spec.P + "appender/FixedStringAppender";
    State st = new State();
    T text = T.of("literal", Models.STR);
    Val app = a.spec.make(st, cls, "(Ljava/lang/String;)V", text);
    for (Out o : a.run(st, cls, app)) {
      List<Event> next = Appenders.events(o, "NEXT"), acc = Appenders.events(o, "ACCEPT");
      if (o.thrown || !next.isEmpty() || acc.size() != 1) {
        if (solid(o.st, o.st.facts)) rep.refuted("literal-takes-none", "literal text", where(o), o.thrown ? throwsText(in, o) : next.size() + " arguments fetched, " + acc.size() + " pieces of output");
        else rep.undecided("literal-takes-none", "literal text", "");
      } else text("literal-takes-none", "literal text", o, o.st.facts, ((TextV) acc.get(0).args.get(0)).segs, Seg.whole(text));
    }
    done(in);
  }
}
