package fpv;

import java.math.BigInteger;
import java.util.*;

/** Date conversions: which value is printed through which formatter. */
final class R23 extends Rule {
  @Override
  String explain() {
    return "%t and %T are abstractly interpreted behind every entry point of Args, with the real traits and conversion function, "
        + "with an arbitrary pattern and without one. The printed text must be the term formatted(formatter, value): the "
        + "context's formatter when there is a pattern, else the ISO formatter of the value's type, with instants taken to the "
        + "system zone; types without default must be refused with the library's exception. Integral values must become "
        + "ofEpochSecond up to 4294967295 and ofEpochMilli above, ints read as unsigned, and negative values must be refused. "
        + "Compiled formats must carry the formatter of exactly the text between the braces.";
  }

  private static final T PATTERN = T.of("pattern", "L" + TimeModel.DTF + ";");
  private static final String TA = "Ljava/time/temporal/TemporalAccessor;";
  private static final String[] TYPES = {"OffsetDateTime", "ZonedDateTime", "LocalDateTime", "LocalDate", "Instant", "LocalTime", "OffsetTime", "Year", "YearMonth", "MonthDay"};
  private static final Map<String, String> ISO = new TreeMap<>();

  static {
    ISO.put("OffsetDateTime", "ISO_OFFSET_DATE_TIME");
    ISO.put("ZonedDateTime", "ISO_OFFSET_DATE_TIME");
    ISO.put("Instant", "ISO_OFFSET_DATE_TIME");
    ISO.put("LocalDateTime", "ISO_LOCAL_DATE_TIME");
    ISO.put("LocalDate", "ISO_LOCAL_DATE");
  }

  @Override
  void run() {
    limit = 20;
    for (char letter : "tT".toCharArray()) {
      for (String way : Entry.WAYS)
        for (boolean pattern : new boolean[] {true, false}) {
          String mode = "%" + letter + (pattern ? "{pattern}" : "") + ", " + way + ", ";
          for (String t : TYPES) attempt("formatter", mode + t, () -> temporal(letter, way, "Ljava/time/" + t + ";", t, pattern, mode + t));
          attempt("formatter", mode + "other temporal", () -> temporal(letter, way, TA, null, pattern, mode + "other temporal"));
          for (Entry.Kind k : new Entry.Kind[] {Entry.INT, Entry.LONG, Entry.BIG}) attempt("epoch", mode + k.name, () -> epoch(letter, way, k, pattern, mode + k.name));
          if (!way.equals("typed") && !way.equals("nullable"))
            for (String c : new String[] {"java/util/Date", "java/util/Calendar", "java/lang/Number"}) attempt("formatter", mode + c, () -> legacy(letter, way, c, pattern, mode + c));
        }
    }
    R09 p = new R09();
    p.patternsOnly = true;
    p.prog = prog;
    p.rep = rep;
    p.run();
  }

  private static T formatter(String name) {
    return T.of("DateTimeFormatter." + name, "L" + TimeModel.DTF + ";");
  }

  private interface Case {
    void at(Entry e, Out o, List<Seg> got);
  }

  /** Runs the directive on the value and hands over every outcome; the text is null when the call fails. */
  private void each(String rule, String inst, char letter, String way, boolean pattern, State st, Entry e, Entry.Kind k, Case c) {
    e.in.unrollFirst = true;
    for (Out a : e.give(st, way, k)) {
      if (a.thrown) {
        verdict(rule, inst, a, a.st.facts, false, throwsText(e.in, a));
        continue;
      }
      for (Out o : e.print(a, letter, Fmt.noFlags(), Fmt.UNSET, Fmt.UNSET, pattern ? PATTERN : NullV.NULL)) {
        List<Event> acc = Appenders.events(o, "ACCEPT");
        if (o.thrown) c.at(e, o, null);
        else if (acc.size() != 1) verdict(rule, inst, o, o.st.facts, false, acc.size() + " pieces of output");
        else c.at(e, o, ((TextV) acc.get(0).args.get(0)).segs);
      }
    }
    done(e.in);
  }

  private static State exactly(State st, T v, String... also) {
    st.refs.put(v, st.info(v).nonNull().plusNot(Spec.P + "traits/FormatTraits").plusNot("java/lang/CharSequence"));
    for (String c : also) st.refs.put(v, st.info(v).plusNot(c));
    return st;
  }

  private void temporal(char letter, String way, String desc, String type, boolean pattern, String inst) {
    T v = T.of("value", desc);
    Entry.Kind k = new Entry.Kind("temporal", "putDateTime", TA, "putDateTime", TA, null, 0, v);
    State st = exactly(new State(), v, "java/lang/Number", "java/math/BigInteger", "java/math/BigDecimal", "java/util/Date", "java/util/Calendar");
    if (type == null) for (String t : ISO.keySet()) st.refs.put(v, st.info(v).plusNot("java/time/" + t));
    each("formatter", inst, letter, way, pattern, st, new Entry(interp(true)), k, (e, o, got) -> {
      String iso = type == null ? null : ISO.get(type);
      if (!pattern && iso == null) {
        verdict("no-default", inst, o, o.st.facts, got == null && e.app.printfException(o), got == null ? throwsText(e.in, o) : "a type without default prints " + Seg.show(got));
        return;
      }
      expect("formatter", inst, e, o, got, letter, pattern ? PATTERN : formatter(iso), v, !pattern && type.equals("Instant"));
    });
  }

  /** The text must be the value, in the system zone if asked for, through the formatter. */
  private void expect(String rule, String inst, Entry e, Out o, List<Seg> got, char letter, T formatter, Val v, boolean zone) {
    List<Out> vs = zone ? TimeModel.atZone(e.in.models, o.st.fork(), v, T.of("systemZone", "Ljava/time/ZoneId;"), "rule") : Out.ret(o.st.fork(), v);
    for (Out z : vs) {
      List<Out> ws = z.thrown ? Collections.singletonList(z) : TimeModel.format(e.in.models, z.st, formatter, z.val, "rule");
      for (Out w : ws) {
        Facts f = w.st.facts;
        if (got == null) verdict(rule, inst, o, f, w.thrown, throwsText(e.in, o));
        else if (w.thrown) verdict(rule, inst, o, f, false, "prints " + Seg.show(got) + " where the formatter fails");
        else {
          List<Seg> t = ((TextV) w.val).segs;
          text(rule, inst, o, f, got, letter == 'T' ? Seg.upper(t) : t);
        }
      }
    }
  }

  private static Out under(Out o, Facts f) {
    State st = o.st.fork();
    st.facts = f;
    return new Out(st, o.val, o.thrown);
  }

  private static final BigInteger MAX = BigInteger.valueOf(4294967295L);

  private void epoch(char letter, String way, Entry.Kind k, boolean pattern, String inst) {
    Lin v = k.value instanceof BigV ? ((BigV) k.value).v : (Lin) k.value;
    each("epoch", inst, letter, way, pattern, new State(), new Entry(interp(true)), k, (e, o, got) -> number(letter, inst, e, o, got, v, k == Entry.INT ? 32 : k == Entry.BIG ? -1 : 0, pattern));
  }

  private void number(char letter, String inst, Entry e, Out o, List<Seg> got, Lin v, int kind, boolean pattern) {
    Choose.each(o.st.facts, ch -> {
      Lin x = v;
      if (!ch.ge(v)) {
        if (kind != 32) {
          verdict("negative", inst, o, ch.f, got == null, "a negative value prints " + (got == null ? "" : Seg.show(got)));
          return;
        }
        x = v.add(Lin.of(Terms.pow2(32)));
      }
      Out here = under(o, ch.f);
      T formatter = pattern ? PATTERN : formatter("ISO_OFFSET_DATE_TIME");
      if (ch.ge(Lin.of(MAX).sub(x))) {
        expect("epoch", inst, e, here, got, letter, formatter, T.of("Instant.ofEpochSecond", TimeModel.LINSTANT, x), !pattern);
        return;
      }
      if (kind == -1 && !ch.ge(Lin.of(Long.MAX_VALUE).sub(x))) {
        // beyond the instants there are
        verdict("epoch", inst, o, ch.f, got == null && e.app.printfException(o), got == null ? throwsText(e.in, o) : "a value over the range of long prints " + Seg.show(got));
        return;
      }
      expect("epoch", inst, e, here, got, letter, formatter, TimeModel.ofMilli(x), !pattern);
    });
  }

  private void legacy(char letter, String way, String cls, boolean pattern, String inst) {
    T v = T.of("value", "L" + cls + ";");
    Entry.Kind k = new Entry.Kind(cls, null, null, null, null, null, 0, v) {
      @Override
      boolean prim() {
        return false;
      }
    };
    State st = exactly(new State(), v, "java/time/temporal/TemporalAccessor");
    if (cls.endsWith("Number")) for (String c : new String[] {"java/math/BigInteger", "java/math/BigDecimal", "java/lang/Integer", "java/lang/Long", "java/lang/Short", "java/lang/Byte", "java/lang/Float", "java/lang/Double"}) st.refs.put(v, st.info(v).plusNot(c));
    each("formatter", inst, letter, way, pattern, st, new Entry(interp(true)), k, (e, o, got) -> {
      T formatter = pattern ? PATTERN : formatter("ISO_OFFSET_DATE_TIME");
      if (cls.endsWith("Number")) {
        number(letter, inst, e, o, got, Lin.of(T.of(".longValue", "J", v)), 0, pattern);
        return;
      }
      Facts f = o.st.facts;
      if (cls.endsWith("Date")) {
        Lin has = Terms.bool("hasInstant", v);
        Facts no = f.andEq(has);
        if (no != null && got == null) verdict("formatter", inst, o, no, e.app.printfException(o), throwsText(e.in, o));
        f = f.andEq(has.add(-1));
        if (f == null) return;
      }
      Out here = under(o, f);
      expect("formatter", inst, e, here, got, letter, formatter, cls.endsWith("Date") ? T.of(".toInstant", TimeModel.LINSTANT, v) : TimeModel.ofMilli(Lin.of(T.of(".getTimeInMillis", "J", v))), !pattern);
    });
  }
}
