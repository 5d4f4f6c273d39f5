package fpv;

import java.util.*;

/** Symbolic runs of the conversion functions (one per conversion letter). */
final class Fmt {
  static final String SF = Spec.P + "appender/SeqFormatter";
  static final String INT = "Lio/fastprintf/number/IntForm;", FLT = "Lio/fastprintf/number/FloatForm;", TRAITS = "Lio/fastprintf/traits/FormatTraits;";
  static final String INTS = "doxu", FLOATS = "fega", TEXTS = "cspt";
  static final Lin UNSET = Lin.of(-1);

  final Interp in;
  final Spec spec;

  Fmt(Interp in) {
    this.in = in;
    this.spec = new Spec(in);
  }

  static String argDesc(char conv) {
    return INTS.indexOf(conv) >= 0 ? INT : FLOATS.indexOf(conv) >= 0 ? FLT : TRAITS;
  }

  static boolean numeric(char conv) {
    return TEXTS.indexOf(conv) < 0;
  }

  static T arg(char conv) {
    return T.of(numeric(conv) ? "value" : "arg", argDesc(conv));
  }

  static Map<String, Lin> noFlags() {
    Map<String, Lin> m = new LinkedHashMap<>();
    for (String f : Spec.FLAGS) m.put(f, Lin.ZERO);
    return m;
  }

  static Lin signum(Val value) {
    return Lin.of(T.of(".signum", "I", java.math.BigInteger.ONE.negate(), java.math.BigInteger.ONE, value));
  }

  /** All outcomes of conversion conv for the given flags, width and precision. */
  List<Out> run(char conv, Map<String, Lin> flags, Lin width, Lin prec, Val value, Val dtf) {
    return run(new State(), conv, flags, width, prec, value, dtf);
  }

  List<Out> run(State st, char conv, Map<String, Lin> flags, Lin width, Lin prec, Val value, Val dtf) {
    List<Out> r = new ArrayList<>();
    for (Out c : spec.contexts(st, flags, width, prec, dtf)) r.addAll(spec.call(c.st, SF, String.valueOf(conv), "(" + Spec.LCTX + argDesc(conv) + ")" + Spec.LSEQ, c.val, value));
    return r;
  }

  /** NaN or infinite. */
  static boolean special(Choose ch, Val v) {
    return ch.is(Lin.of(T.of(".isNaN", "Z", v))) || ch.is(Lin.of(T.of(".isInfinite", "Z", v)));
  }

  static boolean startsWith(List<Seg> t, String s) {
    return !t.isEmpty() && t.get(0).k == Seg.K.LIT && t.get(0).lit.startsWith(s);
  }

  /** Without its first n characters, which must be literal. */
  static List<Seg> drop(List<Seg> t, int n) {
    return Seg.concat(Seg.lit(t.get(0).lit.substring(n)), t.subList(1, t.size()));
  }

  List<Seg> text(Out o) {
    List<Seg> s = in.models.textOf(o.st, o.val);
    if (s == null) throw new Undecided("result is not a text: " + o.val);
    return s;
  }
}
