package fpv;

import java.util.*;

/** Arguments that cannot be converted: the call fails with the library's exception, and nothing else happens. */
final class R19 extends Rule {
  @Override
  String explain() {
    return "Every conversion and '*' is abstractly interpreted behind the entry points of Args, with the real traits, number "
        + "wrappers and conversion functions, on arbitrary values of every argument type, on null and on objects of unknown "
        + "class. Parsing, instant and date calls of the platform may fail as documented. A failing call must end in the library's "
        + "exception: number-format, cast, index, null-pointer, arithmetic, date and unsupported-operation errors must not escape. Where the "
        + "argument cannot be converted the call must fail, and parsed text must print the parsed value. Null prints 'null' in %s and %p.";
  }

  private static final String NUMBERS = "dioxufega*.";
  private static final String INTS = "dioxXu", FLOATS = "fFeEgG";

  @Override
  void run() {
    limit = 15;
    for (Entry.Kind k : Entry.KINDS)
      for (String way : new String[] {"typed", "generic"}) {
        for (char c : "dioxXufFeEgGaAcsStTp*.".toCharArray()) {
          if (k == Entry.STRING && (INTS.indexOf(c) >= 0 || FLOATS.indexOf(c) >= 0)) continue;
          attempt("escape", name(c) + " of " + k.name + ", " + way, () -> kind(k, way, c));
        }
      }
    for (String way : new String[] {"typed", "nullable", "generic", "varargs", "iterable"}) {
      for (char c : "dioxXufFeEgGaA*.".toCharArray()) attempt("parse", name(c) + " of text, " + way, () -> parse(way, c));
    }
    for (char c : "dioxXufFeEgGaAcsStTp*.".toCharArray()) {
      attempt("null", name(c) + " of null", () -> object(NullV.NULL, c, "null"));
      for (String cls : new String[] {"Ljava/lang/Object;", "Ljava/lang/CharSequence;", "Ljava/lang/Number;", "Ljava/util/Date;", "Ljava/util/Calendar;", "Ljava/time/temporal/TemporalAccessor;", "Ljava/time/LocalDate;", "Ljava/time/LocalDateTime;", "Ljava/time/LocalTime;", "Ljava/time/Instant;", "[I", "Ljava/lang/Thread;"})
        attempt("object", name(c) + " of " + cls, () -> object(T.of("object", cls), c, org.objectweb.asm.Type.getType(cls).getClassName()));
    }
  }

  private static String name(char c) {
    return c == '*' ? "* width" : c == '.' ? "* precision" : "%" + c;
  }

  private static boolean failure(String cls) {
    switch (cls) {
      case "java/lang/NumberFormatException":
      case "java/lang/ClassCastException":
      case "java/lang/IndexOutOfBoundsException":
      case "java/lang/ArrayIndexOutOfBoundsException":
      case "java/lang/StringIndexOutOfBoundsException":
      case "java/lang/NullPointerException":
      case "java/lang/ArithmeticException":
      case "java/lang/UnsupportedOperationException":
      case "java/lang/NegativeArraySizeException":
      case "java/lang/ArrayStoreException":
      case "java/time/DateTimeException":
      case "java/util/NoSuchElementException":
        return true;
      default:
        return false;
    }
  }

  private Entry entry() {
    Interp in = interp(true);
    in.unrollFirst = true;
    in.hooks.add(R11::floats);
    return new Entry(in);
  }

  private List<Out> print(Entry e, List<Out> lists, char c) {
    List<Out> r = new ArrayList<>();
    for (Out a : lists) {
      if (a.thrown) {
        r.add(a);
        continue;
      }
      Map<String, Lin> flags = Fmt.noFlags();
      if (c == '*' || c == '.') {
        for (Out b : e.put(a.st, a.val, "putString", Models.STR, T.of("text", Models.STR))) {
          if (b.thrown) r.add(b);
          else r.addAll(e.print(b, 's', flags, c == '*' ? Appenders.PRECEDING : Fmt.UNSET, c == '.' ? Appenders.PRECEDING : Fmt.UNSET, NullV.NULL));
        }
      } else if (Character.toLowerCase(c) == 't') {
        r.addAll(e.print(fork(a), c, flags, Fmt.UNSET, Fmt.UNSET, NullV.NULL));
        r.addAll(e.print(a, c, flags, Fmt.UNSET, Fmt.UNSET, T.of("pattern", "L" + TimeModel.DTF + ";")));
      } else r.addAll(e.print(a, c, flags, Fmt.UNSET, Fmt.UNSET, NullV.NULL));
    }
    return r;
  }

  private static Out fork(Out o) {
    return new Out(o.st.fork(), o.val, o.thrown);
  }

  private void escapes(Entry e, String inst, Out o) {
    String c = exClass(e.in, o);
    verdict("escape", inst, o, o.st.facts, !failure(c), throwsText(e.in, o));
  }

  /** What cannot be converted at all, by type and letter. */
  private static boolean impossible(Entry.Kind k, char c) {
    switch (Character.toLowerCase(c)) {
      case 't':
        return k != Entry.INT && k != Entry.LONG && k != Entry.BIG && k != Entry.DATE;
      case 'c':
        return k == Entry.DATE;
      default:
        return false;
    }
  }

  private void kind(Entry.Kind k, String way, char c) {
    Entry e = entry();
    String inst = name(c) + " of " + k.name + ", " + way;
    for (Out o : print(e, e.give(new State(), way, k), c)) {
      if (o.thrown) escapes(e, inst, o);
      if (impossible(k, c)) failed("unsupported", inst, e, o, o.st.facts);
      else if (k == Entry.STRING && c == 'c') {
        Facts f = o.st.facts.andEq(Terms.len((T) k.value));
        if (f != null) failed("unsupported", inst, e, o, f);
        f = o.st.facts.andGe(Terms.len((T) k.value).add(-1));
        if (f != null) printed("parse", inst, e, o, f, Seg.of(Seg.sub((T) k.value, Lin.ZERO, Lin.ONE, false)));
      } else if (!o.thrown) rep.proved("escape", inst);
    }
    done(e.in);
  }

  private void failed(String rule, String inst, Entry e, Out o, Facts f) {
    for (Event x : Appenders.events(o, "ACCEPT"))
      if (T.isOpaque(x.args.get(0))) {
        rep.undecided(rule, inst, "prints " + cut(show(o)));
        return;
      }
    verdict(rule, inst, o, f, o.thrown && e.app.printfException(o), o.thrown ? throwsText(e.in, o) : "prints " + show(o));
  }

  private void printed(String rule, String inst, Entry e, Out o, Facts f, List<Seg> want) {
    List<Event> acc = Appenders.events(o, "ACCEPT");
    if (o.thrown || acc.size() != 1) verdict(rule, inst, o, f, false, o.thrown ? throwsText(e.in, o) : acc.size() + " pieces of output");
    else text(rule, inst, o, f, ((TextV) acc.get(0).args.get(0)).segs, want);
  }

  private static String show(Out o) {
    StringBuilder sb = new StringBuilder();
    for (Event x : Appenders.events(o, "ACCEPT")) sb.append(Seg.show(((TextV) x.args.get(0)).segs));
    return sb.toString();
  }

  /** Text as a number: fails where it does not parse, else prints what the parsed number prints. */
  private void parse(String way, char c) {
    Entry e = entry();
    T v = (T) Entry.STRING.value;
    String inst = name(c) + " of text, " + way;
    boolean floating = FLOATS.indexOf(c) >= 0 || Character.toLowerCase(c) == 'a', star = c == '*' || c == '.';
    TextV t = new TextV(Seg.whole(v), false);
    Lin ok = floating ? Terms.bool("parseDoubleOk", t) : Terms.bool(star ? "parseIntOk" : "parseLongOk", t, Lin.of(10));
    Val number = floating ? T.of("parseDouble", "D", t) : Lin.of(T.of("parse", star ? "I" : "J", t, Lin.of(10)));
    List<Out> ref = null;
    for (Out o : print(e, e.give(new State(), way, Entry.STRING), c)) {
      if (o.thrown) escapes(e, inst, o);
      Facts bad = o.st.facts.andEq(ok), good = o.st.facts.andEq(ok.add(-1));
      if (bad != null) failed("parse", inst, e, o, bad);
      if (good == null) continue;
      if (ref == null) {
        Out l = e.create(new State());
        ref = print(e, e.put(l.st, l.val, floating ? "putDouble" : star ? "putInt" : "putLong", floating ? "D" : star ? "I" : "J", number), c);
      }
      for (Out r : ref) {
        Facts f = compatible(o.st, r.st) ? good.and(r.st.facts) : null;
        if (f == null) continue;
        Out joint = r.st.lossy ? r : o;
        if (r.thrown || o.thrown) verdict("parse", inst, joint, f, r.thrown && o.thrown, o.thrown ? throwsText(e.in, o) : "prints " + show(o) + " where the number fails");
        else {
          List<Event> a = Appenders.events(o, "ACCEPT"), b = Appenders.events(r, "ACCEPT");
          if (a.size() == 1 && b.size() == 1) text("parse", inst, joint, f, ((TextV) a.get(0).args.get(0)).segs, ((TextV) b.get(0).args.get(0)).segs);
        }
      }
    }
    done(e.in);
  }

  private static final String[] CONVERTIBLE = {"java/lang/Number", "java/util/Date", "java/util/Calendar", "java/lang/CharSequence", "java/time/temporal/TemporalAccessor", "java/lang/Character", "java/lang/Boolean", "java/math/BigInteger", "java/math/BigDecimal"};

  private void object(Val v, char c, String cls) {
    Entry e = entry();
    String inst = name(c) + " of " + cls;
    State st = new State();
    boolean foreign = cls.equals("java.lang.Thread") || cls.equals("int[]") || cls.equals("java.lang.Object");
    if (v instanceof T) {
      T t = (T) v;
      st.refs.put(t, st.info(t).nonNull().plusNot(Spec.P + "traits/FormatTraits"));
      if (cls.endsWith("TemporalAccessor")) for (String k : new String[] {"java/lang/CharSequence", "java/lang/Number", "java/math/BigInteger", "java/math/BigDecimal"}) st.refs.put(t, st.info(t).plusNot(k));
      if (foreign) for (String k : CONVERTIBLE) st.refs.put(t, st.info(t).plusNot(k));
    }
    Out l = e.create(st);
    char k = Character.toLowerCase(c);
    for (Out o : print(e, e.put(l.st, l.val, "put", "Ljava/lang/Object;", v), c)) {
      if (o.thrown) escapes(e, inst, o);
      if (v instanceof NullV) {
        if (k == 's' || k == 'p') printed("null", inst, e, o, o.st.facts, Seg.lit(c == 'S' ? "NULL" : "null"));
        else failed("null", inst, e, o, o.st.facts);
      } else if (foreign && k != 's' && k != 'p') failed("unsupported", inst, e, o, o.st.facts);
      else if (NUMBERS.indexOf(k) >= 0 && TimeModel.LOCAL.contains(cls.replace('.', '/'))) failed("unsupported", inst, e, o, o.st.facts);
      else if (cls.startsWith("java.time") && k == 'c') failed("unsupported", inst, e, o, o.st.facts);
      else if (!o.thrown) rep.proved("escape", inst);
    }
    done(e.in);
  }
}
