package fpv;

import java.util.*;

/** Upper-case conversions map exactly a-z to A-Z. */
final class R17 extends R16 {
  private static final String UTILS = Spec.P + "util/Utils";

  @Override
  String explain() {
    return "Utils.toUpperCase is abstractly interpreted on an unknown character, string and array, the upper-casing of every kind of sequence on unknown "
        + "texts, and every upper-case letter of a directive on all flags, widths, precisions and arguments. The result must be the text with exactly a-z "
        + "replaced by A-Z, the same for every length and destination. Locale-dependent case mapping is some other function and shows as a difference.";
  }

  @Override
  String[] operations() {
    return new String[] {"u"};
  }

  @Override
  void run() {
    attempt("character", "toUpperCase(char)", this::character);
    attempt("string", "toUpperCase(String)", this::string);
    attempt("array", "toUpperCase(char[])", this::array);
    R10 r = new R10();
    r.prog = prog;
    r.rep = rep;
    for (char l : Appenders.LETTERS.toCharArray()) if (Character.isUpperCase(l)) attempt("upper-case letter", "%" + l, () -> r.letter("upper-case letter", l));
    super.run();
  }

  private void character() {
    start();
    Lin c = Lin.of(T.of("char", "C"));
    for (Out o : spec.call(new State(), UTILS, "toUpperCase", "(C)C", c)) {
      if (o.thrown) {
        verdict("character", "toUpperCase(char)", o, o.st.facts, false, throwsText(in, o));
        continue;
      }
      for (Out w : in.models.upChar(o.st, c)) equal("character", "toUpperCase(char)", w, w.st.facts, (Lin) o.val, (Lin) w.val, "upper-case form");
    }
    done(in);
  }

  private void string() {
    start();
    T s = T.of("str", Models.STR);
    for (Out o : spec.call(new State(), UTILS, "toUpperCase", "(Ljava/lang/String;)Ljava/lang/String;", s)) {
      if (o.thrown) verdict("string", "toUpperCase(String)", o, o.st.facts, false, throwsText(in, o));
      else text("string", "toUpperCase(String)", o, o.st.facts, in.models.textOf(o.st, o.val), Seg.upper(Seg.whole(s)));
    }
    done(in);
    // every place of a short string, one by one
    for (int n = 0; n <= 3; n++) {
      start();
      in.unrollFirst = true;
      List<Seg> t = new ArrayList<>();
      for (int i = 0; i < n; i++) Seg.push(t, Seg.run(Lin.of(T.of("char" + i, "C")), Lin.ONE));
      for (Out o : spec.call(new State(), UTILS, "toUpperCase", "(Ljava/lang/String;)Ljava/lang/String;", new TextV(t, false))) places("string", "toUpperCase(String) of length " + n, o, o.thrown ? null : in.models.textOf(o.st, o.val), n);
    }
  }

  private void array() {
    start();
    State st = new State();
    T s = T.of("chars", Models.STR);
    Val arr = st.alloc(new HObj("[C", Collections.emptyMap(), Seg.whole(s), null));
    for (Out o : spec.call(st, UTILS, "toUpperCase", "([C)Z", arr)) {
      if (o.thrown) verdict("array", "toUpperCase(char[])", o, o.st.facts, false, throwsText(in, o));
      else text("array", "toUpperCase(char[])", o, o.st.facts, in.obj(o.st, arr).text(), Seg.upper(Seg.whole(s)));
    }
    done(in);
    for (int n = 0; n <= 3; n++) {
      start();
      in.unrollFirst = true;
      List<Seg> t = new ArrayList<>();
      for (int i = 0; i < n; i++) Seg.push(t, Seg.run(Lin.of(T.of("char" + i, "C")), Lin.ONE));
      State sn = new State();
      Val a = sn.alloc(new HObj("[C", Collections.emptyMap(), t, null));
      for (Out o : spec.call(sn, UTILS, "toUpperCase", "([C)Z", a)) places("array", "toUpperCase(char[]) of length " + n, o, o.thrown ? null : in.obj(o.st, a).text(), n);
    }
  }

  private void places(String rule, String inst, Out o, List<Seg> got, int n) {
    if (got == null) {
      verdict(rule, inst, o, o.st.facts, false, throwsText(in, o));
      return;
    }
    equal(rule, inst, o, o.st.facts, Seg.len(got), Lin.of(n), "length");
    State st = o.st.withEq(Seg.len(got).add(-n));
    if (st == null) return;
    for (int i = 0; i < n; i++)
      for (Out c : in.models.charAt(st.fork(), got, Lin.of(i)))
        for (Out w : in.models.upChar(c.st, Lin.of(T.of("char" + i, "C")))) equal(rule, inst, w, w.st.facts, (Lin) c.val, (Lin) w.val, "character " + i);
  }
}
