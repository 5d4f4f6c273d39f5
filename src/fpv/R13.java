package fpv;

import java.util.*;

/** NaN, infinities, negative zero and the digits of negative numbers, from the entry points down to the digit generator. */
final class R13 extends Rule {
  @Override
  String explain() {
    return "Doubles, floats and numeric strings are printed by f, e, g and a with the real entry points, traits, wrappers and "
        + "conversions, abstracting the value to its class (NaN, infinities, signed zeros, negative, positive) and its magnitude. "
        + "For all flags, widths and precisions the classes NaN and infinity must give exactly [sign]NaN/Infinity padded with "
        + "blanks, a minus sign must appear exactly for the negative classes including -0, and every call into the digit "
        + "generator must be given the magnitude of the value. For a the text of v and of -v must differ in the sign only.";
  }

  @Override
  void run() {
    limit = 60;
    for (Entry.Kind k : new Entry.Kind[] {Entry.DOUBLE, Entry.FLOAT})
      for (String way : new String[] {"typed", "generic"})
        for (char c : "fega".toCharArray()) {
          String inst = "%" + c + " of " + k.name + ", " + way;
          attempt("special-values", inst, () -> one(k, way, c, inst));
        }
    for (int p : new int[] {-1, 13, 20}) attempt("hex-magnitude", "%." + p + "a", () -> hex(p));
  }

  private Interp prepare() {
    Interp in = interp(true);
    in.unrollFirst = true;
    in.hooks.add(R13::digits);
    return in;
  }

  /** The digit generator, as a function of its arguments. */
  private static List<Out> digits(Interp in, State st, String owner, String name, String desc, List<Val> a, String where) {
    if (!owner.startsWith(Spec.P + "util/internal/") || !desc.startsWith("(D") || a.isEmpty() || !(a.get(0) instanceof T)) return null;
    List<Val> n = new ArrayList<>(a);
    n.set(0, Dbl.normal(st.facts, a.get(0)));
    st.events.add(new Event("DIGITS", Collections.singletonList(n.get(0)), where));
    String ret = desc.substring(desc.indexOf(')') + 1);
    if (ret.equals("V")) throw new Undecided("digit generator " + name);
    return Out.ret(st, in.mk(ret, T.of("digits:" + name, ret, n.toArray(new Val[0]))));
  }

  private void one(Entry.Kind k, String way, char c, String inst) {
    Interp in = prepare();
    Entry e = new Entry(in);
    boolean full = way.equals("typed") && k == Entry.DOUBLE;
    Lin w = Spec.bounded("width"), p = c == 'a' ? Fmt.UNSET : Spec.bounded("prec");
    Map<String, Lin> flags = Spec.symbolicFlags();
    if (!full) for (String f : new String[] {"ALTERNATE", "LEADING_SPACE"}) flags.put(f, Lin.ZERO);
    T v = (T) k.value;
    int cells = 0;
    for (Out args : e.give(new State(), way, k))
      for (Out o : e.print(args, c, flags, w, p, NullV.NULL)) {
        List<Event> acc = Appenders.events(o, "ACCEPT");
        if (o.thrown || acc.size() != 1) {
          // what digits the generator gives is not known here, so only the other classes count
          for (Facts f : Dbl.in(o.st.facts, v, Dbl.not(Dbl.FINITE))) verdict("special-values", inst, o, f, false, o.thrown ? throwsText(in, o) : acc.size() + " pieces of output");
          continue;
        }
        List<Seg> got = ((TextV) acc.get(0).args.get(0)).segs;
        for (boolean inf : new boolean[] {false, true})
          for (Facts f : Dbl.in(o.st.facts, v, inf ? Dbl.INF : Dbl.NAN))
            Choose.each(f, ch -> text("special-values", inst, o, ch.f, got, special(ch, v, inf, flags, w)));
        for (Facts f : Dbl.in(o.st.facts, v, Dbl.FINITE)) {
          for (Event d : Appenders.events(o, "DIGITS")) {
            Val x = Dbl.normal(f, d.args.get(0));
            for (Facts nz : Dbl.in(f, v, Dbl.of(-2, 2)))
              verdict("magnitude", inst, o, nz, Dbl.normal(nz, x).equals(Dbl.abs(v.desc.equals("F") ? Interp.f2d(v) : v)), "the digits of " + x + " are printed, asked for at " + d.where);
          }
          Choose.each(f, ch -> sign(inst, o, ch, got, v, flags, w));
        }
        cells++;
      }
    if (cells == 0) rep.undecided("special-values", inst, "no outcome");
    done(in);
  }

  private static List<Seg> special(Choose ch, T v, boolean inf, Map<String, Lin> flags, Lin w) {
    String s = "NaN";
    if (inf) s = (ch.ge(Dbl.atom(v).neg()) ? "-" : ch.is(flags.get("PLUS")) ? "+" : ch.is(flags.get("LEADING_SPACE")) ? " " : "") + "Infinity";
    List<Seg> pad = Seg.of(Seg.run(Lin.of(' '), ch.max(w.add(-s.length()), Lin.ZERO)));
    return ch.is(flags.get("LEFT_JUSTIFY")) ? Seg.concat(Seg.lit(s), pad) : Seg.concat(pad, Seg.lit(s));
  }

  /** The first character after leading blanks is the sign the value calls for. */
  private void sign(String inst, Out o, Choose ch, List<Seg> got, T v, Map<String, Lin> flags, Lin w) {
    boolean neg = ch.ge(Dbl.atom(v).neg());
    boolean plus = !neg && ch.is(flags.get("PLUS")), space = !neg && !plus && ch.is(flags.get("LEADING_SPACE"));
    if (space) return; // not told apart from padding here; rule C05
    List<Seg> rest = got;
    if (!rest.isEmpty() && rest.get(0).k == Seg.K.RUN && rest.get(0).ch.isConst(' ')) rest = rest.subList(1, rest.size());
    while (!rest.isEmpty() && rest.get(0).k == Seg.K.LIT && rest.get(0).lit.startsWith(" ")) rest = Fmt.drop(rest, 1);
    boolean minus = Fmt.startsWith(rest, "-"), pl = Fmt.startsWith(rest, "+");
    verdict("sign", inst, o, ch.f, minus == neg && pl == plus, (minus ? "a minus sign" : pl ? "a plus sign" : "no sign") + " where " + (neg ? "a minus sign" : plus ? "a plus sign" : "none") + " belongs: " + Seg.show(got));
  }

  private void hex(int p) {
    T v = T.of("value", "D");
    String inst = "%." + p + "a";
    Interp in = prepare();
    List<Out> a = hex(in, v, p), b = hex(in, T.of("dneg", "D", v), p);
    for (Out x : a)
      for (Out y : b) {
        if (!compatible(x.st, y.st)) continue;
        Facts f = x.st.facts.and(y.st.facts);
        if (f == null) continue;
        for (Facts g : Dbl.in(f, v, Dbl.of(1, 2))) {
          if (x.thrown || y.thrown) {
            verdict("hex-magnitude", inst, x, g, x.thrown == y.thrown, x.thrown ? throwsText(in, x) : throwsText(in, y));
            continue;
          }
          List<Seg> s = in.models.textOf(x.st, x.val), t = in.models.textOf(y.st, y.val);
          text("hex-magnitude", inst, y, x.st.lossy, g, t, Seg.concat(Seg.lit("-"), s));
        }
      }
    done(in);
  }

  private List<Out> hex(Interp in, Val v, int p) {
    Fmt f = new Fmt(in);
    List<Out> r = new ArrayList<>();
    for (Out w : f.spec.call(new State(), Spec.P + "number/FloatForm", "valueOf", "(D)" + Fmt.FLT, v)) r.addAll(f.run(w.st, 'a', Fmt.noFlags(), Fmt.UNSET, Lin.of(p), w.val, NullV.NULL));
    return r;
  }
}
