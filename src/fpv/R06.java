package fpv;

import java.util.*;

/** Precision: digits of integers, characters of strings, and what rounding is asked for. */
final class R06 extends Rule {
  private static final Map<Character, String> DIGITS = new LinkedHashMap<>();
  private static final Map<Character, String> LAYOUT = new LinkedHashMap<>();

  static {
    DIGITS.put('d', "toDecimalString");
    DIGITS.put('u', "toUnsignedDecimalString");
    DIGITS.put('o', "toOctalString");
    DIGITS.put('x', "toHexString");
    LAYOUT.put('f', "decimalLayout");
    LAYOUT.put('e', "scientificLayout");
    LAYOUT.put('g', "generalLayout");
    LAYOUT.put('a', "hexLayout");
  }

  @Override
  String explain() {
    return "The conversion functions are abstractly interpreted for all precisions and values (no width, no flags but '#'). "
        + "Integers must print their digits with zeros up to the precision, strings the prefix of min(precision, length) "
        + "characters, and floating conversions must ask the number for the layout at exactly the requested precision and print "
        + "its mantissa filled with zeros to that many fraction digits, then the exponent. Characters, pointers and dates must print as "
        + "without a precision. A '*' precision is followed through the appender: any negative value must print as without one.";
  }

  @Override
  void run() {
    for (char c : DIGITS.keySet()) attempt("precision-digits", "%" + c, () -> ints(c));
    attempt("precision-prefix", "%s", this::string);
    for (char c : "cpt".toCharArray()) attempt("precision-ignored", "%" + c, () -> ignored(c));
    for (char c : "dxsfega".toCharArray()) attempt("negative-star", "%.*" + c, () -> negative(c));
    for (char c : LAYOUT.keySet()) attempt("precision-rounding", "%" + c, () -> floats(c));
  }

  private void ints(char c) {
    Interp in = interp(true);
    Fmt f = new Fmt(in);
    Lin p = Spec.bounded("prec");
    Val v = Fmt.arg(c);
    for (Out o : f.run(c, Fmt.noFlags(), Fmt.UNSET, p, v, NullV.NULL)) {
      if (o.thrown) continue;
      Choose.each(o.st.facts, ch -> {
        int s = ch.eq(Fmt.signum(v)) ? 0 : ch.ge(Fmt.signum(v)) ? 1 : -1;
        List<Seg> d = Seg.whole(T.of("." + DIGITS.get(c), Models.STR, v));
        List<Seg> want = Seg.lit(s < 0 && c == 'd' ? "-" : "");
        if (s != 0 || !ch.eq(p)) {
          Lin zeros = ch.max(p.sub(Seg.len(d)), Lin.ZERO);
          want = Seg.concat(Seg.concat(want, Seg.of(Seg.run(Lin.of('0'), zeros))), d);
        }
        text("precision-digits", "%" + c, o, ch.f, f.text(o), want);
      });
    }
    done(in);
  }

  /** Characters, pointers and dates are printed as without a precision. */
  private void ignored(char c) {
    Interp in = interp(true);
    Fmt f = new Fmt(in);
    T v = Fmt.arg(c);
    List<Out> plain = f.run(c, Fmt.noFlags(), Fmt.UNSET, Fmt.UNSET, v, NullV.NULL);
    for (Out o : f.run(c, Fmt.noFlags(), Fmt.UNSET, Spec.bounded("prec"), v, NullV.NULL))
      for (Out n : plain) {
        if (!compatible(o.st, n.st)) continue;
        Facts b = o.st.facts.and(n.st.facts);
        if (b == null) continue;
        if (o.thrown || n.thrown) verdict("precision-ignored", "%" + c, o, b, o.thrown && n.thrown && exClass(in, o).equals(exClass(in, n)), "fails or prints only with a precision");
        else text("precision-ignored", "%" + c, o, n.st.lossy, b, f.text(o), f.text(n));
      }
    done(in);
  }

  /** Any negative '*' precision prints what no precision prints. */
  private void negative(char c) {
    Interp in = interp(true);
    Appenders a = new Appenders(in);
    List<Out> plain = a.fmt.run(c, Fmt.noFlags(), Fmt.UNSET, Fmt.UNSET, Appenders.value(c, Appenders.arg(1)), NullV.NULL);
    Lin star = Lin.of(T.of(".asInt", "I", Appenders.arg(0)));
    String inst = "%.*" + c;
    for (Out o : a.append(c, Fmt.noFlags(), Fmt.UNSET, Appenders.PRECEDING, NullV.NULL)) {
      Facts g = o.st.facts.andGe(star.neg().add(-1));
      if (g != null) g = g.andGe(Appenders.COUNT.add(-2));
      if (g == null) continue;
      for (Out n : plain) {
        if (!compatible(o.st, n.st)) continue;
        Facts b = g.and(n.st.facts);
        if (b == null) continue;
        List<Event> acc = Appenders.events(o, "ACCEPT");
        if (o.thrown || n.thrown) verdict("negative-star", inst, o, b, o.thrown && n.thrown && exClass(in, o).equals(exClass(in, n)), "fails or prints where the conversion without precision does not");
        else if (acc.size() == 1) text("negative-star", inst, o, n.st.lossy, b, ((TextV) acc.get(0).args.get(0)).segs, a.fmt.text(n));
      }
    }
    done(in);
  }

  private void string() {
    Interp in = interp(true);
    Fmt f = new Fmt(in);
    Lin p = Spec.bounded("prec");
    T v = Fmt.arg('s');
    T s = T.of(".asSeq", Spec.LSEQ, v);
    for (Out o : f.run('s', Fmt.noFlags(), Fmt.UNSET, p, v, NullV.NULL)) {
      if (o.thrown) continue;
      Choose.each(o.st.facts, ch -> {
        Lin n = Terms.len(s);
        if (!ch.eq(p.add(1))) n = ch.min(p, n);
        text("precision-prefix", "%s", o, ch.f, f.text(o), Seg.of(Seg.sub(s, Lin.ZERO, n, false)));
      });
    }
    done(in);
  }

  private void floats(char c) {
    Interp in = interp(true);
    Fmt f = new Fmt(in);
    Lin p = Spec.bounded("prec");
    T v = Fmt.arg(c);
    Map<String, Lin> fl = Fmt.noFlags();
    fl.put("ALTERNATE", Spec.flag("ALTERNATE"));
    String inst = "%" + c, layout = "." + LAYOUT.get(c);
    for (Out o : f.run(c, fl, Fmt.UNSET, p, v, NullV.NULL)) {
      if (o.thrown) continue;
      List<Seg> got = f.text(o);
      Choose.each(o.st.facts, ch -> {
        if (Fmt.special(ch, v)) return;
        boolean unset = ch.eq(p.add(1));
        Lin want = unset ? Lin.of(6) : p;
        if (c == 'g' || c == 'a') want = ch.max(want, Lin.ONE);
        Set<T> asked = new LinkedHashSet<>();
        for (Seg s : got) collect(s, layout, asked);
        if (asked.isEmpty()) {
          if (solid(o.st, ch.f) && !opaque(got)) rep.refuted("precision-rounding", inst, where(o), "prints " + cut(Seg.show(got)) + " without asking for " + layout.substring(1), "for example: " + witness(ch.f));
          else rep.undecided("precision-rounding", inst, cut(Seg.show(got)));
          return;
        }
        if (c != 'a' || !unset)
          for (T t : asked) {
            if (t.args.get(0) == v) rep.proved("rounds-the-value", inst);
            else rep.undecided("rounds-the-value", inst, cut("" + t));
            equal("precision-rounding", inst, o, ch.f, Interp.lin(t.args.get(1)), want, layout.substring(1) + " is asked for precision");
          }
        if (c == 'f' || c == 'e') {
          T lay = T.of(layout, "Lio/fastprintf/number/FloatLayout;", v, want);
          for (T t : asked) lay = SegCmp.sameVal(t, lay, ch.f) ? t : lay;
          T m = field(asked, "antissa", lay), ex = c == 'e' ? field(asked, "xponent", lay) : null;
          if (m == null || c == 'e' && ex == null) return;
          mantissa(inst, o, ch, got, c == 'e', m, ex, want);
        } else if (c == 'g') general(inst, o, ch, got, layout, want);
      });
    }
    done(in);
  }

  private static boolean opaque(List<Seg> l) {
    for (Seg s : l) if (s.opaque()) return true;
    return false;
  }

  private final Map<T, Set<T>> parents = new HashMap<>();

  private void collect(Seg s, String fn, Set<T> out) {
    if (s.k == Seg.K.SUB) collect(s.base, fn, out);
    if (s.k != Seg.K.LIT) {
      for (Lin l : s.k == Seg.K.RUN ? new Lin[] {s.n, s.ch} : new Lin[] {s.from, s.to}) for (T t : l.atoms) collect(t, fn, out);
    }
  }

  private void collect(Val v, String fn, Set<T> out) {
    if (v instanceof Lin) {
      for (T t : ((Lin) v).atoms) collect(t, fn, out);
    } else if (v instanceof TextV) {
      for (Seg s : ((TextV) v).segs) collect(s, fn, out);
    } else if (v instanceof T) {
      T t = (T) v;
      if (t.fn.equals(fn)) out.add(t);
      for (Val a : t.args) {
        if (a instanceof T) parents.computeIfAbsent((T) a, k -> new LinkedHashSet<>()).add(t);
        collect(a, fn, out);
      }
    }
  }

  /** The sequence read from the layout under a name ending in suffix. */
  private T field(Set<T> asked, String suffix, T lay) {
    for (T t : asked)
      if (t == lay)
        for (T q : parents.getOrDefault(t, Collections.emptySet()))
          if (q.desc.equals(Spec.LSEQ) && q.fn.endsWith(suffix)) return q;
    return null;
  }

  private void mantissa(String inst, Out o, Choose ch, List<Seg> got, boolean exp, T m, T ex, Lin prec) {
    TextV key = new TextV(Seg.whole(m), false);
    List<Seg> want = key.segs;
    boolean point = ch.is(Terms.bool("HAS", key, Lin.of('.')));
    Lin dot = Lin.of(T.of("IDX", "I", java.math.BigInteger.ZERO, java.math.BigInteger.valueOf(Terms.MAX_LEN), key, Lin.of('.')));
    Lin frac = point ? Terms.len(m).sub(dot).add(-1) : Lin.ZERO;
    if (point) ch.assumeGe(frac);
    ch.assumeGe(prec.sub(frac)); // the layout never has more fraction digits than asked for (C14, C15)
    if (!point && (!ch.eq(prec) || ch.is(Spec.flag("ALTERNATE")))) want = Seg.concat(want, Seg.lit("."));
    want = Seg.concat(want, Seg.of(Seg.run(Lin.of('0'), prec.sub(frac))));
    if (exp) want = Seg.concat(Seg.concat(want, Seg.lit("e")), Seg.whole(ex));
    List<Seg> body = Fmt.startsWith(got, "-") ? Fmt.drop(got, 1) : got;
    text("fraction-digits", inst, o, ch.f, body, want);
  }

  /** 'g' prints a prefix of the layout's mantissa, then at most a point and zeros (with '#'), then the exponent. */
  private void general(String inst, Out o, Choose ch, List<Seg> got, String layout, Lin want) {
    List<Seg> body = Fmt.startsWith(got, "-") ? Fmt.drop(got, 1) : got;
    if (body.isEmpty()) return;
    Seg s = body.get(0);
    if (s.k != Seg.K.SUB || !ch.f.entailsEq(s.from)) {
      rep.undecided("general-prefix", inst, cut(Seg.show(body)));
      return;
    }
    boolean alt = ch.is(Spec.flag("ALTERNATE"));
    if (alt) equal("general-prefix", inst, o, ch.f, s.to, Terms.len(s.base), "with '#' the mantissa is cut");
    else rep.proved("general-prefix", inst);
  }
}
