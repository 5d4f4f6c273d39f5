package fpv;

import java.math.BigInteger;
import java.util.*;

/** Runs of a directive on an arbitrary argument list: a stand-in iterator and a stand-in consumer record what is used. */
final class Appenders {
  static final String DEF = Spec.P + "appender/DefaultAppender", SPECIFIER = Spec.P + "Specifier";
  static final String APPEND = "(Ljava/util/function/Consumer;Ljava/util/Iterator;)V";
  static final String PRINTF_EX = Spec.P + "PrintfException";
  static final Lin PRECEDING = Lin.of(Integer.MIN_VALUE);
  static final String LETTERS = "diuoxXfFeEgGaAcsStTnp";

  final Interp in;
  final Spec spec;
  final Fmt fmt;

  Appenders(Interp in) {
    this.in = in;
    this.fmt = new Fmt(in);
    this.spec = fmt.spec;
    in.hooks.add(Appenders::hook);
  }

  /** Number of arguments of the call. */
  static final Lin COUNT = Lin.of(T.of("argumentCount", "#", BigInteger.ZERO, BigInteger.valueOf(1 << 20)));

  static T arg(int i) {
    return T.of("arg" + i, Fmt.TRAITS);
  }

  private static List<Out> hook(Interp in, State st, String owner, String name, String desc, List<Val> a, String where) {
    if (a.isEmpty()) return null;
    HObj h = in.obj(st, a.get(0));
    if (h == null) return null;
    if (h.cls.equals("$SymIter")) {
      int pos = ((Lin) h.fields.get("pos")).c.intValue();
      Lin left = COUNT.add(-pos - 1);
      State yes = st.withGe(left), no = st.withGe(left.neg().add(-1));
      List<Out> r = new ArrayList<>();
      switch (name) {
        case "hasNext":
          if (yes != null) r.add(new Out(yes, Lin.ONE, false));
          if (no != null) r.add(new Out(no, Lin.ZERO, false));
          return r;
        case "next":
          if (yes != null) {
            in.put(yes, a.get(0), h.with("pos", Lin.of(pos + 1)));
            yes.events.add(new Event("NEXT", Collections.singletonList(Lin.of(pos)), where));
            r.add(new Out(yes, arg(pos), false));
          }
          if (no != null) r.add(in.raise(no, "java/util/NoSuchElementException", where));
          return r;
        default:
          throw new Undecided("iterator method " + name);
      }
    }
    if (h.cls.equals("$Sink")) {
      if (!name.equals("accept")) throw new Undecided("consumer method " + name);
      List<Seg> t = in.models.textOf(st, a.get(1));
      if (t == null) throw new Undecided("consumer gets " + a.get(1));
      st.events.add(new Event("ACCEPT", Collections.singletonList(new TextV(t, true)), where));
      return Out.ret(st, null);
    }
    return null;
  }

  /** The specifier constant of a letter. */
  Val specifier(char letter) {
    Out o = spec.only(spec.call(new State(), SPECIFIER, "valueOf", "(C)L" + SPECIFIER + ";", Lin.of(letter)), "Specifier.valueOf");
    return o.val;
  }

  /** All outcomes of printing one directive of the given letter into the sink. */
  List<Out> append(char letter, Map<String, Lin> flags, Lin width, Lin prec, Val dtf) {
    State st = new State();
    List<Out> r = new ArrayList<>();
    for (Out c : spec.contexts(st, flags, width, prec, dtf))
      for (Out app : spec.makeAll(c.st, DEF, "(L" + SPECIFIER + ";" + Spec.LCTX + ")V", specifier(letter), c.val)) r.addAll(run(app.st, DEF, app.val));
    return r;
  }

  List<Out> run(State st, String cls, Val app) {
    Map<String, Val> f = new LinkedHashMap<>();
    f.put("pos", Lin.ZERO);
    return run(st, cls, app, st.alloc(new HObj("$SymIter", f, null, null)));
  }

  List<Out> run(State st, String cls, Val app, Val it) {
    Val sink = st.alloc(new HObj("$Sink"));
    Prog.M m = in.prog.resolve(cls, "append", APPEND);
    if (m == null) throw new AnchorMissing(cls + ".append");
    return in.exec(m, Arrays.asList(app, sink, it), st);
  }

  static List<Event> events(Out o, String kind) {
    List<Event> r = new ArrayList<>();
    for (Event e : o.st.events) if (e.kind.equals(kind)) r.add(e);
    return r;
  }

  boolean printfException(Out o) {
    return in.prog.isSub(in.classOf(o.st, o.val), PRINTF_EX);
  }

  /** What the conversion functions take for an argument. */
  static Val value(char conv, T arg) {
    if (Fmt.INTS.indexOf(conv) >= 0) return T.of(".asIntForm", Fmt.INT, arg);
    if (Fmt.FLOATS.indexOf(conv) >= 0) return T.of(".asFloatForm", Fmt.FLT, arg);
    return arg;
  }
}
