package fpv;

import java.math.BigInteger;
import java.util.*;

/** Format texts of a known shape with unknown content, and what compiling them yields. */
final class Formats {
  static final String COMPILER = Spec.P + "Compiler", SYNTAX = Spec.P + "PrintfSyntaxException";
  static final String FIXED = Spec.P + "appender/FixedStringAppender";

  final Interp in;
  final Spec spec;
  final Appenders app;
  State st = new State();
  final List<Seg> text = new ArrayList<>();
  private int n = 0;

  Formats(Interp in) {
    this.in = in;
    in.unrollFirst = true;
    this.app = new Appenders(in);
    this.spec = app.spec;
  }

  /** Starts another format. */
  void reset() {
    st = new State();
    text.clear();
    n = 0;
  }

  void lit(String s) {
    Seg.push(text, Seg.mkLit(s));
  }

  void chr(Lin c) {
    Seg.push(text, Seg.run(c, Lin.ONE));
  }

  /** Any character at all. */
  Lin any() {
    Lin c = Lin.of(T.of("char" + n++, "C"));
    chr(c);
    return c;
  }

  Lin anyExcept(String not) {
    Lin c = any();
    for (char x : not.toCharArray()) st.facts = st.facts.andNe(c.add(-x));
    return c;
  }

  /** One digit, at least lo. */
  Lin digit(char lo) {
    Lin d = Lin.of(T.of("digit" + n++ + lo, "#", BigInteger.valueOf(lo), BigInteger.valueOf('9')));
    chr(d);
    return d;
  }

  /** A number of k digits without leading zero unless it is a single digit of a precision. */
  Lin number(int k, char first) {
    Lin v = Lin.ZERO;
    for (int i = 0; i < k; i++) v = v.mul(BigInteger.TEN).add(digit(i == 0 ? first : '0')).add(-'0');
    return v;
  }

  /** Literal text of any length >= 1 without '%' whose first character is none of the given. */
  T literal(String notFirst) {
    T t = T.of("text" + n++, Models.STR);
    st.assumeEq(Terms.bool("HAS", new TextV(Seg.whole(t), false), Lin.of('%')));
    st.assumeGe(Terms.len(t).add(-1));
    for (char x : notFirst.toCharArray()) st.facts = st.facts.andNe(Lin.of(T.of("CHAR", "C", t, Lin.ZERO)).add(-x));
    for (Seg s : Seg.whole(t)) Seg.push(text, s);
    return t;
  }

  /** Any text whatsoever. */
  T rest() {
    T t = T.of("rest" + n++, Models.STR);
    for (Seg s : Seg.whole(t)) Seg.push(text, s);
    return t;
  }

  Val compiler;

  List<Out> compile() {
    in.steps = 0;
    compiler = spec.make(st, COMPILER, "(Ljava/lang/String;)V", new TextV(new ArrayList<>(text), false));
    return spec.call(st, COMPILER, "compile", "()V", compiler);
  }

  /** The appenders of a finished compilation. */
  List<Val> appenders(Out o) {
    Out r = spec.only(spec.call(o.st, COMPILER, "getAppenders", "()Ljava/util/List;", compiler), "getAppenders");
    HObj h = in.obj(r.st, r.val);
    if (h == null || !in.models.isList(h)) throw new Undecided("list of appenders");
    return h.list();
  }

  boolean syntaxError(Out o) {
    return in.prog.isSub(in.classOf(o.st, o.val), SYNTAX);
  }
}
