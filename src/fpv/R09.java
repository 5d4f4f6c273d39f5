package fpv;

import java.util.*;

/** Splitting of the format string. */
final class R09 extends Rule {
  @Override
  String explain() {
    return "Compiler.compile is abstractly interpreted on format texts of known shape and unknown content: literal texts of any length without "
        + "'%', every set of flags, numbers given by unknown digits, stars, every letter, date patterns of unknown characters. The list of "
        + "appenders must be exactly the literals and directives in the order written, with the written flags, number values, letter and pattern.";
  }

  /** One expected element: literal text or a directive. */
  private static final class Item {
    List<Seg> text;
    char letter;
    Set<String> flags = new HashSet<>();
    Lin width = Fmt.UNSET, prec = Fmt.UNSET;
    List<Seg> pattern;
  }

  private Interp in;
  private Formats f;
  private final Map<Character, Val> specifier = new HashMap<>();
  private List<Item> want;
  boolean patternsOnly;

  private static final String[] FLAG_NAMES = Spec.FLAGS;
  private static final String FLAG_CHARS = "-+ #0";

  @Override
  void run() {
    in = interp(true);
    f = new Formats(in);
    if (patternsOnly) {
      dates();
      return;
    }
    // one directive between literals
    for (int fl = 0; fl < 32; fl++)
      for (int k = 0; k < 9; k++) {
        int ff = fl, w = new int[] {0, 1, 2, 3, 4, 6, 6, 2, 4}[k], p = new int[] {0, 1, 2, 3, 4, 6, 0, 0, 2}[k];
        one(() -> {
          literal();
          directive("dsfxe".charAt((ff + w) % 5), flags(ff, w), w, p, -1);
          literal();
        });
      }
    for (char l : Appenders.LETTERS.toCharArray())
      for (int w = 0; w < 7; w++)
        for (int p = 0; p < 7; p++) {
          int ww = w, pp = p;
          one(() -> {
            literal();
            directive(l, ww % 2 == 0 ? "" : "-", ww, pp, -1);
            literal();
          });
        }
    dates();
    // sequences
    int kinds = 7;
    for (int n = 1; n <= 4; n++) {
      int total = 1;
      for (int i = 0; i < n; i++) total *= kinds;
      for (int c = 0; c < total; c++) {
        int[] ks = new int[n];
        for (int i = 0, x = c; i < n; i++, x /= kinds) ks[i] = x % kinds;
        boolean skip = false;
        for (int i = 1; i < n; i++) skip |= ks[i] == 0 && ks[i - 1] == 0;
        if (n == 4) for (int i = 0; i < n; i++) skip |= ks[i] > 4;
        if (skip) continue;
        one(() -> {
          for (int k : ks) item(k);
        });
      }
    }
    done(in);
  }

  private void item(int k) {
    switch (k) {
      case 0:
        literal();
        break;
      case 1:
        f.lit("%%");
        Item i = new Item();
        i.text = Seg.lit("%");
        want.add(i);
        break;
      case 2:
        directive('d', "", 0, 0, -1);
        break;
      case 3:
        directive('t', "", 0, 0, -1);
        break;
      case 4:
        directive('s', "0-", 3, 1, -1);
        break;
      case 5:
        directive('F', "#", 1, 3, -1);
        break;
      default:
        directive('T', "", 0, 0, 1);
    }
  }

  private static String flags(int set, int w) {
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < 5; i++) if ((set >> i & 1) != 0) sb.append(FLAG_CHARS.charAt(i));
    return set % 3 == 1 ? sb.reverse().toString() : sb.toString();
  }

  private void literal() {
    Item i = new Item();
    i.text = Seg.whole(f.literal("{"));
    want.add(i);
  }

  /** Width and precision kinds: 0 absent, 1 star, 2..5 that many digits less one, 6: just '.' for a precision, six digits for a width. */
  private void directive(char letter, String flags, int w, int p, int pattern) {
    Item i = new Item();
    i.letter = letter;
    f.lit("%" + flags);
    for (char c : flags.toCharArray()) i.flags.add(FLAG_NAMES[FLAG_CHARS.indexOf(c)]);
    if (w == 1) {
      f.lit("*");
      i.width = Appenders.PRECEDING;
    } else if (w > 1) i.width = f.number(w - 1, '1');
    if (p == 1) {
      f.lit(".*");
      i.prec = Appenders.PRECEDING;
    } else if (p == 6) {
      f.lit(".");
      i.prec = Lin.ZERO;
    } else if (p > 1) {
      f.lit(".");
      i.prec = f.number(p - 1, '0');
    }
    f.lit("" + letter);
    if (pattern >= 0) {
      f.lit("{");
      List<Seg> before = new ArrayList<>(f.text);
      List<Seg> pat = new ArrayList<>();
      for (char c : PATTERNS[pattern].toCharArray()) {
        if (c == '?') {
          Lin x = f.anyExcept("'}");
          Seg.push(pat, Seg.run(x, Lin.ONE));
        } else if (c == 'q') {
          Lin x = f.anyExcept("'");
          Seg.push(pat, Seg.run(x, Lin.ONE));
        } else {
          f.lit("" + c);
          Seg.push(pat, Seg.mkLit("" + c));
        }
      }
      f.lit("}");
      i.pattern = pat;
    }
    want.add(i);
  }

  /** '?' an unknown character other than quote and brace, 'q' an unknown character inside quotes. */
  private static final String[] PATTERNS = {"?", "??", "????", "'q'", "?'qq'?", "?''?", "?'q''q'?", "'q'?'q'", "''", "'q'''", "?''''?"};

  private void dates() {
    for (char l : "tT".toCharArray())
      for (int d = 0; d < PATTERNS.length; d++)
        for (int tail = 0; tail < 3; tail++) {
          int dd = d, tt = tail;
          one(() -> {
            if (tt == 1) literal();
            directive(l, "", tt == 2 ? 2 : 0, 0, dd);
            if (tt == 1) literal();
            if (tt == 2) directive('d', "", 0, 0, -1);
          });
        }
  }

  private void one(Runnable shape) {
    f.reset();
    want = new ArrayList<>();
    String[] inst = {""};
    attempt("format-split", "format", () -> {
      shape.run();
      inst[0] = "format " + cut(Seg.show(f.text));
      for (Out o : f.compile()) outcome(inst[0], o);
    });
  }

  private void outcome(String inst, Out o) {
    Facts g = o.st.facts;
    if (o.thrown) {
      // only a number over the limit or a pattern the platform rejects may stop the compilation
      for (Item i : want) {
        for (Lin v : new Lin[] {i.width, i.prec}) g = g == null ? null : g.andGe(Lin.of(Spec.MAX).sub(v));
        if (i.pattern != null && g != null) g = g.andEq(Terms.bool("patternOk", new TextV(i.pattern, false)).add(-1));
      }
      verdict("format-split", inst, o, g, g == null, "a well-formed format " + throwsText(in, o));
      return;
    }
    for (Item i : want)
      for (Lin v : new Lin[] {i.width, i.prec})
        if (g.andGe(Lin.of(Spec.MAX).sub(v)) == null) return; // decided by C07
    List<Val> got = f.appenders(o);
    int k = 0;
    List<Seg> open = new ArrayList<>(), wanted = new ArrayList<>();
    for (Val v : got) {
      String cls = in.classOf(o.st, v);
      if (cls.equals(Appenders.DEF)) {
        while (k < want.size() && want.get(k).text != null) for (Seg s : want.get(k++).text) Seg.push(wanted, s);
        text("literals-verbatim", inst, o, g, open, wanted);
        open = new ArrayList<>();
        wanted = new ArrayList<>();
        if (k == want.size()) {
          verdict("format-split", inst, o, g, false, "one directive too many");
          return;
        }
        directive(inst, o, v, want.get(k++));
      } else {
        for (Out q : f.app.run(o.st.fork(), cls, v)) {
          List<Event> acc = Appenders.events(q, "ACCEPT");
          if (q.thrown || !Appenders.events(q, "NEXT").isEmpty()) {
            verdict("literals-verbatim", inst, o, g, false, "literal text fails or takes an argument");
            return;
          }
          for (Event e : acc) for (Seg s : ((TextV) e.args.get(0)).segs) Seg.push(open, s);
        }
      }
    }
    while (k < want.size() && want.get(k).text != null) for (Seg s : want.get(k++).text) Seg.push(wanted, s);
    text("literals-verbatim", inst, o, g, open, wanted);
    if (k < want.size()) verdict("format-split", inst, o, g, false, "the directive %" + want.get(k).letter + " is lost");
  }

  private void directive(String inst, Out o, Val v, Item i) {
    Facts g = o.st.facts;
    String cx = Spec.LCTX;
    Val sp = get(o, Appenders.DEF, "getSpecifier", "()L" + Appenders.SPECIFIER + ";", v);
    Val ctx = get(o, Appenders.DEF, "getContext", "()" + cx, v);
    Val sw = specifier.computeIfAbsent(i.letter, c -> f.app.specifier(c));
    verdict("directive-letter", inst, o, g, sp.equals(sw), "the letter '" + i.letter + "' is compiled as another specifier");
    equal("directive-width", inst, o, g, (Lin) get(o, Spec.CTX, "getWidth", "()I", ctx), i.width, "width");
    equal("directive-precision", inst, o, g, (Lin) get(o, Spec.CTX, "getPrecision", "()I", ctx), i.prec, "precision");
    for (Val fl : in.models.enumValues(Spec.P + "Flag")) {
      String name = Seg.asLit(((TextV) in.staticHeap.get(((ObjV) fl).id).fields.get("$name")).segs);
      Val has = get(o, Spec.CTX, "hasFlag", "(L" + Spec.P + "Flag;)Z", ctx, fl);
      equal("directive-flags", inst, o, g, (Lin) has, Lin.of(i.flags.contains(name) ? 1 : 0), "flag " + name);
    }
    Val d = get(o, Spec.CTX, "getDateTimeFormatter", "()Ljava/time/format/DateTimeFormatter;", ctx);
    if (i.pattern == null) verdict("directive-pattern", inst, o, g, d instanceof NullV, "a date pattern appears from nowhere: " + d);
    else if (d instanceof T && ((T) d).fn.equals("DateTimeFormatter.ofPattern")) {
      verdict("directive-pattern", inst, o, g, ((T) d).args.size() == 1 || ((T) d).args.get(1).toString().contains("Locale.getDefault"), "the pattern is read for another locale: " + d);
      text("directive-pattern", inst, o, g, ((TextV) ((T) d).args.get(0)).segs, i.pattern);
    } else verdict("directive-pattern", inst, o, g, false, "the date pattern is not used: " + d);
  }

  private Val get(Out o, String cls, String name, String desc, Val... args) {
    return f.spec.only(f.spec.call(o.st, cls, name, desc, args), name).val;
  }
}
