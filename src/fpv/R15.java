package fpv;

import java.util.*;

/** Big decimals: rounding asked for, position of the point, zeros and exponent, for all unscaled values, scales and precisions. */
final class R15 extends Rule {
  @Override
  String explain() {
    return "A big decimal with an arbitrary unscaled value and scale is wrapped and printed by f and e for all precisions, and laid "
        + "out by generalLayout. The code is abstractly interpreted with exact models of the BigDecimal operations (digits as "
        + "texts, rounding as a function of the value and the number of dropped digits). The text must be the digits of the value "
        + "rounded half up to the requested place, with the point, the zeros and the exponent where scale and length put them.";
  }

  private static final T VALUE = T.of("value", Models.BDEC);
  private static final String WRAP = "(" + Models.BDEC + ")" + Fmt.FLT;

  @Override
  void run() {
    for (char c : "fe".toCharArray()) attempt(c == 'f' ? "fixed" : "scientific", "%" + c, () -> conv(c));
    attempt("scientific", "%e, extreme scales", this::extreme);
    attempt("general", "generalLayout", this::general);
  }

  private Interp prepare() {
    Interp in = interp(true);
    in.unrollFirst = true;
    return in;
  }

  /** Scales and lengths within a billion, so that their sums are ints. */
  private static State start() {
    Lin u = Models.unscaled(VALUE), s = Models.scale(VALUE), max = Lin.of(1_000_000_000);
    State st = new State();
    st.assumeGe(max.sub(s));
    st.assumeGe(max.add(s));
    st.assumeGe(max.sub(Seg.len(Terms.nat(10, u))));
    st.assumeGe(max.sub(Seg.len(Terms.nat(10, u.neg()))));
    return st;
  }

  /** All scales: those values need no rounding that have at most one digit more than the precision. */
  private void extreme() {
    Lin u = Models.unscaled(VALUE), s = Models.scale(VALUE), p = Spec.bounded("prec");
    State st = new State();
    st.assumeGe(s.add(Integer.MAX_VALUE));
    st.assumeGe(p.add(1).sub(Seg.len(Terms.nat(10, u))));
    st.assumeGe(p.add(1).sub(Seg.len(Terms.nat(10, u.neg()))));
    st.assumeGe(p);
    conv('e', st);
  }

  private void conv(char c) {
    conv(c, start());
  }

  private void conv(char c, State start) {
    Interp in = prepare();
    Fmt f = new Fmt(in);
    Lin p = Spec.bounded("prec");
    String rule = c == 'f' ? "fixed" : "scientific";
    Lin u = Models.unscaled(VALUE), s = Models.scale(VALUE);
    for (Out w : f.spec.call(start, Spec.P + "number/FloatForm", "valueOf", WRAP, VALUE))
      for (Out o : f.run(w.st, c, Fmt.noFlags(), Fmt.UNSET, p, w.val, NullV.NULL)) {
        if (o.thrown) {
          verdict(rule, "%" + c, o, o.st.facts, false, throwsText(in, o));
          continue;
        }
        List<Seg> got = f.text(o);
        Choose.each(o.st.facts, ch -> {
          Lin prec = ch.eq(p.add(1)) ? Lin.of(6) : p;
          boolean neg = !ch.ge(u);
          Lin m = neg ? u.neg() : u;
          List<Seg> sign = Seg.lit(neg ? "-" : "");
          if (ch.eq(u)) {
            List<Seg> z = Seg.concat(Seg.lit("0"), fraction(ch, prec));
            if (c == 'e') z = Seg.concat(z, Seg.lit("e+00"));
            text(rule, "%" + c, o, ch.f, got, z);
            return;
          }
          List<List<Seg>> want = new ArrayList<>();
          for (Lin[] us : c == 'f' ? atPlace(ch, m, s, prec) : atDigits(ch, m, s, prec.add(1))) {
            List<Seg> t = c == 'f' ? place(ch, us[0], us[1], prec) : exponential(ch, us[0], us[1], prec);
            if (t != null) want.add(Seg.concat(sign, t));
          }
          oneOf(rule, "%" + c, o, ch, got, want);
        });
      }
    done(in);
  }

  private void general() {
    Interp in = prepare();
    Fmt f = new Fmt(in);
    Lin p = Lin.of(T.of("digits", "#", java.math.BigInteger.ONE, java.math.BigInteger.valueOf(Spec.MAX)));
    Lin u = Models.unscaled(VALUE), s = Models.scale(VALUE);
    String lay = "Lio/fastprintf/number/FloatLayout;";
    for (Out w : f.spec.call(start(), Spec.P + "number/FloatForm", "valueOf", WRAP, VALUE))
      for (Out l : in.invoke(w.st, org.objectweb.asm.Opcodes.INVOKEINTERFACE, Spec.P + "number/FloatForm", "generalLayout", "(I)" + lay, Arrays.asList(w.val, p), "general")) {
        if (l.thrown) {
          verdict("general", "generalLayout", l, l.st.facts, false, throwsText(in, l));
          continue;
        }
        Val mant = part(in, l, "getMantissa"), exp = part(in, l, "getExponent");
        List<Seg> got = in.models.textOf(l.st, mant);
        if (got == null) throw new Undecided("mantissa " + mant);
        boolean sci = !(exp instanceof NullV);
        if (sci) got = Seg.concat(Seg.concat(got, Seg.lit("e")), in.models.textOf(l.st, exp));
        List<Seg> text = got;
        Choose.each(l.st.facts, ch -> {
          Lin m = ch.ge(u) ? u : u.neg();
          if (ch.eq(u)) {
            verdict("general", "generalLayout", l, ch.f, !sci, "an exponent for zero");
            if (!sci) text("general", "generalLayout", l, ch.f, text, Seg.lit("0"));
            return;
          }
          Lin e = Seg.len(Terms.nat(10, m)).add(-1).sub(s);
          boolean fixed = ch.ge(e.add(4)) && ch.ge(p.sub(e).add(-1));
          if (fixed == sci) {
            verdict("general", "generalLayout", l, ch.f, false, (sci ? "scientific" : "fixed") + " form chosen");
            return;
          }
          Lin frac = fixed ? p.add(-1).sub(e) : p.add(-1);
          List<List<Seg>> want = new ArrayList<>();
          for (Lin[] us : fixed ? atPlace(ch, m, s, frac) : atDigits(ch, m, s, p)) {
            List<Seg> t = fixed ? place(ch, us[0], us[1], null) : exponential(ch, us[0], us[1], null);
            if (t != null) want.add(t);
          }
          oneOf("general", "generalLayout", l, ch, text, want);
        });
      }
    done(in);
  }

  private Val part(Interp in, Out l, String name) {
    List<Out> r = in.invoke(l.st, org.objectweb.asm.Opcodes.INVOKEVIRTUAL, Spec.P + "number/FloatLayout", name, "()" + Spec.LSEQ, Collections.singletonList(l.val), name);
    if (r.size() != 1 || r.get(0).thrown) throw new Undecided(name);
    return r.get(0).val;
  }

  private void oneOf(String rule, String inst, Out o, Choose ch, List<Seg> got, List<List<Seg>> want) {
    for (List<Seg> w : want)
      if (SegCmp.compare(got, w, ch.f).verdict == SegCmp.EQ) {
        rep.proved(rule, inst);
        return;
      }
    if (!want.isEmpty()) text(rule, inst, o, ch.f, got, want.get(0));
  }

  /** Value rounded half up to the place: itself when it has no more fraction digits, else the quotient or, if that ends in zero, a tenth of it. */
  private static List<Lin[]> atPlace(Choose ch, Lin m, Lin s, Lin place) {
    if (ch.ge(place.sub(s))) return Collections.singletonList(new Lin[] {m, s});
    Lin q = Models.round10(m, s.sub(place), "HALF_UP");
    return Arrays.asList(new Lin[] {q, place}, new Lin[] {Models.div10(q), place.add(-1)});
  }

  /** Value rounded half up to k digits. */
  private static List<Lin[]> atDigits(Choose ch, Lin m, Lin s, Lin k) {
    Lin drop = Seg.len(Terms.nat(10, m)).sub(k);
    if (ch.ge(drop.neg())) return Collections.singletonList(new Lin[] {m, s});
    Lin q = Models.round10(m, drop, "HALF_UP");
    // the quotient is used as it is exactly when it has k digits
    if (ch.eq(Seg.len(Terms.nat(10, q)).sub(k))) return Collections.singletonList(new Lin[] {q, s.sub(drop)});
    return Collections.singletonList(new Lin[] {Models.div10(q), s.sub(drop).add(-1)});
  }

  private static List<Seg> fraction(Choose ch, Lin prec) {
    if (ch.eq(prec)) return Seg.lit("");
    return Seg.concat(Seg.lit("."), Seg.of(Seg.run(Lin.of('0'), prec)));
  }

  /** Digits of n with s of them after the point, filled with zeros to prec fraction digits (not filled when prec is null). */
  private static List<Seg> place(Choose ch, Lin n, Lin s, Lin prec) {
    List<Seg> d = Terms.nat(10, n);
    Lin len = Seg.len(d);
    if (!ch.ge(s.add(-1))) {
      List<Seg> t = Seg.concat(d, Seg.of(Seg.run(Lin.of('0'), s.neg())));
      return prec == null ? t : Seg.concat(t, fraction(ch, prec));
    }
    List<Seg> t;
    T b = d.get(0).k == Seg.K.SUB ? d.get(0).base : null;
    if (b == null) return null;
    if (ch.ge(len.sub(s).add(-1))) t = Seg.concat(Seg.concat(Seg.of(Seg.sub(b, Lin.ZERO, len.sub(s), false)), Seg.lit(".")), Seg.of(Seg.sub(b, len.sub(s), len, false)));
    else t = Seg.concat(Seg.concat(Seg.lit("0."), Seg.of(Seg.run(Lin.of('0'), s.sub(len)))), d);
    return prec == null ? t : Seg.concat(t, Seg.of(Seg.run(Lin.of('0'), prec.sub(s))));
  }

  private static List<Seg> exponential(Choose ch, Lin n, Lin s, Lin prec) {
    List<Seg> d = Terms.nat(10, n);
    T b = d.get(0).k == Seg.K.SUB ? d.get(0).base : null;
    if (b == null) return null;
    Lin len = Seg.len(d);
    List<Seg> t = Seg.of(Seg.sub(b, Lin.ZERO, Lin.ONE, false));
    boolean single = ch.eq(len.add(-1));
    if (!single) t = Seg.concat(Seg.concat(t, Seg.lit(".")), Seg.of(Seg.sub(b, Lin.ONE, len, false)));
    else if (prec != null && !ch.eq(prec)) t = Seg.concat(t, Seg.lit("."));
    if (prec != null) t = Seg.concat(t, Seg.of(Seg.run(Lin.of('0'), prec.sub(len).add(1))));
    Lin e = len.add(-1).sub(s);
    boolean neg = !ch.ge(e);
    Lin abs = neg ? e.neg() : e;
    List<Seg> x = ch.eq(abs) ? Seg.lit("0") : Terms.nat(10, abs);
    t = Seg.concat(t, Seg.lit("e" + (neg ? "-" : "+") + (ch.ge(abs.add(-10)) ? "" : "0")));
    return Seg.concat(t, x);
  }
}
