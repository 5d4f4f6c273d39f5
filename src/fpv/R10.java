package fpv;

import java.util.*;

/** Letters and flag characters select what is documented for them. */
final class R10 extends Rule {
  private static final String LFLAG = "L" + Spec.P + "Flag;";
  private static final Map<Character, String> FLAG_OF = new LinkedHashMap<>();

  static {
    FLAG_OF.put('-', "LEFT_JUSTIFY");
    FLAG_OF.put('+', "PLUS");
    FLAG_OF.put(' ', "LEADING_SPACE");
    FLAG_OF.put('#', "ALTERNATE");
    FLAG_OF.put('0', "ZERO_PAD");
  }

  @Override
  String explain() {
    return "Specifier.valueOf and Flag.valueOf are abstractly interpreted for an arbitrary character: exactly the documented letters and "
        + "flag characters must be accepted. For every letter the directive is interpreted for all flags, widths, precisions and "
        + "arguments and its text compared with the conversion function of that letter, upper-cased by ASCII rules for upper-case letters. "
        + "Compiling '%' plus an arbitrary character must reject everything else.";
  }

  @Override
  void run() {
    attempt("letters", "Specifier.valueOf", this::letters);
    attempt("flags", "Flag.valueOf", this::flags);
    for (char l : Appenders.LETTERS.toCharArray()) attempt("letter-selects", "%" + l, () -> letter("letter-selects", l));
    for (char c : FLAG_OF.keySet()) attempt("repeated-flag", "'" + c + "'", () -> repeated(c));
    attempt("letters", "compile", this::unknownLetter);
  }

  private void letters() {
    Interp in = interp(true);
    Spec spec = new Spec(in);
    Lin c = Lin.of(T.of("letter", "C"));
    for (Out o : spec.call(new State(), Appenders.SPECIFIER, "valueOf", "(C)L" + Appenders.SPECIFIER + ";", c)) {
      if (o.thrown) {
        verdict("letters", "Specifier.valueOf", o, o.st.facts, false, throwsText(in, o));
        continue;
      }
      boolean known = !(o.val instanceof NullV);
      Facts bad = o.st.facts;
      if (known) {
        for (char l : (Appenders.LETTERS + "%").toCharArray()) bad = bad == null ? null : bad.andNe(c.add(-l));
        verdict("letters", "Specifier.valueOf", o, bad, bad == null, "an undocumented letter is accepted");
      } else {
        for (char l : Appenders.LETTERS.toCharArray()) {
          Facts f = o.st.facts.andEq(c.add(-l));
          verdict("letters", "Specifier.valueOf", o, f, f == null, "the letter '" + l + "' is not recognised");
        }
      }
    }
    done(in);
  }

  private void flags() {
    Interp in = interp(true);
    Spec spec = new Spec(in);
    Lin c = Lin.of(T.of("flagChar", "C"));
    in.ensureInit(Spec.P + "Flag");
    for (Out o : spec.call(new State(), Spec.P + "Flag", "valueOf", "(C)" + LFLAG, c)) {
      String name = o.thrown ? null : enumName(in, o);
      for (Map.Entry<Character, String> e : FLAG_OF.entrySet()) {
        Facts f = o.st.facts.andEq(c.add(-e.getKey()));
        if (f == null) continue;
        verdict("flags", "'" + e.getKey() + "'", o, f, e.getValue().equals(name), "the flag character gives " + (o.thrown ? throwsText(in, o) : name) + " instead of " + e.getValue());
      }
      if (!o.thrown && o.val instanceof NullV) continue;
      Facts bad = o.st.facts;
      for (char l : FLAG_OF.keySet()) bad = bad == null ? null : bad.andNe(c.add(-l));
      verdict("flags", "other characters", o, bad, bad == null, "another character is taken for a flag");
    }
    done(in);
  }

  private String enumName(Interp in, Out o) {
    HObj h = in.obj(o.st, o.val);
    if (h == null) return null;
    Val n = h.fields.get("$name");
    return n instanceof TextV ? Seg.asLit(((TextV) n).segs) : null;
  }

  void letter(String rule, char l) {
    char conv = l == 'i' ? 'd' : Character.toLowerCase(l);
    boolean upper = Character.isUpperCase(l);
    Interp in = interp(true);
    Appenders a = new Appenders(in);
    Lin w = Spec.bounded("width"), p = Spec.bounded("prec");
    Val dtf = conv == 't' ? T.of("nullable:dtf", "Ljava/time/format/DateTimeFormatter;") : NullV.NULL;
    List<Out> outs = a.append(l, Spec.symbolicFlags(), w, p, dtf);
    T arg = Appenders.arg(0);
    List<Out> ref = conv == 'n' ? null : a.fmt.run(conv, Spec.symbolicFlags(), w, p, Appenders.value(conv, arg), dtf);
    String inst = "%" + l;
    for (Out o : outs) {
      if (o.st.facts.andGe(Appenders.COUNT.add(-1)) == null) continue;
      List<Event> acc = Appenders.events(o, "ACCEPT");
      if (ref == null) {
        verdict(rule, inst, o, o.st.facts, !o.thrown && acc.size() == 1 && ((TextV) acc.get(0).args.get(0)).segs.isEmpty(), "%n prints something");
        continue;
      }
      for (Out n : ref) {
        if (!compatible(o.st, n.st)) continue;
        Facts b = o.st.facts.and(n.st.facts);
        if (b == null) continue;
        if (o.thrown || n.thrown) {
          verdict(rule, inst, o, b, o.thrown && n.thrown && exClass(in, o).equals(exClass(in, n)), "fails or prints where the conversion does not");
          continue;
        }
        List<Seg> want = a.fmt.text(n);
        text(rule, inst, o, n.st.lossy, b, ((TextV) acc.get(0).args.get(0)).segs, upper ? Seg.upper(want) : want);
      }
    }
    done(in);
  }

  private List<Out> compile(Interp in, List<Seg> format) {
    in.unrollFirst = true;
    Spec spec = new Spec(in);
    State st = new State();
    String cls = Spec.P + "Compiler";
    Val c = spec.make(st, cls, "(Ljava/lang/String;)V", new TextV(format, false));
    return spec.call(st, cls, "compile", "()V", c);
  }

  private void repeated(char c) {
    Interp in = interp(true);
    for (Out o : compile(in, Seg.lit("%" + c + c + "d")))
      verdict("repeated-flag", "'" + c + "'", o, o.st.facts, o.thrown && in.prog.isSub(in.classOf(o.st, o.val), Spec.P + "PrintfSyntaxException"), "a repeated flag is not reported as a syntax error");
    // each other flag in between
    for (char d : FLAG_OF.keySet())
      if (d != c)
        for (Out o : compile(in, Seg.lit("%" + c + d + c + "d")))
          verdict("repeated-flag", "'" + c + "'", o, o.st.facts, o.thrown && in.prog.isSub(in.classOf(o.st, o.val), Spec.P + "PrintfSyntaxException"), "a flag repeated after another one is not reported as a syntax error");
    done(in);
  }

  private void unknownLetter() {
    Interp in = interp(true);
    Lin c = Lin.of(T.of("letter", "C"));
    for (Out o : compile(in, Seg.of(Seg.mkLit("%"), Seg.run(c, Lin.ONE)))) {
      boolean syntax = o.thrown && in.prog.isSub(in.classOf(o.st, o.val), Spec.P + "PrintfSyntaxException");
      if (!o.thrown) {
        Facts bad = o.st.facts;
        for (char l : (Appenders.LETTERS + "%").toCharArray()) bad = bad == null ? null : bad.andNe(c.add(-l));
        verdict("letters", "compile", o, bad, bad == null, "a directive with an undocumented letter compiles");
      } else {
        for (char l : (Appenders.LETTERS + "%").toCharArray()) {
          Facts f = o.st.facts.andEq(c.add(-l));
          verdict("letters", "compile %" + l, o, f, f == null, "compiling %" + l + " " + throwsText(in, o));
        }
        verdict("letters", "compile", o, o.st.facts, syntax, throwsText(in, o));
      }
    }
    done(in);
  }
}
