package fpv;

import java.math.BigInteger;
import java.util.*;

/** Limits of width and precision, and the meaning of star values. */
final class R07 extends Rule {
  private static final String CREATE = "(Ljava/util/EnumSet;IILjava/time/format/DateTimeFormatter;)" + Spec.LCTX;

  @Override
  String explain() {
    return "A context is created from arbitrary ints, and directives with '*' width or precision are abstractly interpreted for "
        + "arbitrary int arguments and all flags. Values above 65536 in magnitude (and stray negative ones) must end in the library's exception before "
        + "any output; all others must be used as given, a negative '*' width as '-' with its absolute value, a negative '*' precision as absent.";
  }

  @Override
  void run() {
    attempt("limit-on-create", "FormatContext.create", this::create);
    for (char l : "dsxfcp".toCharArray())
      for (int k = 1; k < 4; k++) {
        boolean sw = (k & 1) != 0, sp = (k & 2) != 0;
        String inst = "%" + (sw ? "*" : "") + (sp ? ".*" : "") + l;
        attempt("star-values", inst, () -> star("limit-on-star", "star-values", inst, l, sw, sp));
      }
  }

  private void create() {
    Interp in = interp(true);
    Spec spec = new Spec(in);
    in.ensureInit(Spec.P + "Flag");
    Lin w = Lin.of(T.of("width", "I")), p = Lin.of(T.of("prec", "I"));
    State st = new State();
    Val set = in.models.enumSetOf(st, Spec.P + "Flag", Fmt.noFlags());
    for (Out o : spec.call(st, Spec.CTX, "create", CREATE, set, w, p, NullV.NULL)) {
      Choose.each(o.st.facts, ch -> {
        boolean ok = legal(ch, w) && legal(ch, p);
        String inst = "FormatContext.create";
        if (o.thrown) {
          boolean mine = in.prog.isSub(in.classOf(o.st, o.val), Appenders.PRINTF_EX);
          verdict("limit-on-create", inst, o, ch.f, !ok && mine, (ok ? "a legal value is rejected: " : "wrong exception: ") + throwsText(in, o));
          return;
        }
        verdict("limit-on-create", inst, o, ch.f, ok, "a value outside -1..65536 is accepted");
        if (!ok) return;
        for (String g : new String[] {"getWidth", "getPrecision"}) {
          List<Out> got = spec.call(o.st.fork(), Spec.CTX, g, "()I", o.val);
          for (Out x : got) equal("limit-on-create", inst + "." + g, x, ch.f, Interp.lin(x.val), g.equals("getWidth") ? w : p, g);
        }
      });
    }
    done(in);
  }

  private static boolean legal(Choose ch, Lin v) {
    if (ch.eq(v.add(1)) || ch.eq(v.sub(Appenders.PRECEDING))) return true;
    return ch.ge(v) && ch.ge(Lin.of(Spec.MAX).sub(v));
  }

  void star(String limit, String rule, String inst, char l, boolean sw, boolean sp) {
    Interp in = interp(true);
    Appenders a = new Appenders(in);
    List<Out> outs = a.append(l, Spec.symbolicFlags(), sw ? Appenders.PRECEDING : Fmt.UNSET, sp ? Appenders.PRECEDING : Fmt.UNSET, NullV.NULL);
    int stars = (sw ? 1 : 0) + (sp ? 1 : 0);
    Lin aw = Lin.of(T.of(".asInt", "I", Appenders.arg(0))), ap = Lin.of(T.of(".asInt", "I", Appenders.arg(sw ? 1 : 0)));
    T arg = Appenders.arg(stars);
    // the same conversion with the resolved values, for both justifications
    Lin rw = Spec.bounded("resolvedWidth"), rp = Spec.bounded("resolvedPrec");
    Map<String, Lin> left = Spec.symbolicFlags();
    left.put("LEFT_JUSTIFY", Lin.ONE);
    List<Out> plain = a.fmt.run(l, Spec.symbolicFlags(), sw ? rw : Fmt.UNSET, sp ? rp : Fmt.UNSET, Appenders.value(l, arg), NullV.NULL);
    List<Out> lefty = sw ? a.fmt.run(l, left, rw, sp ? rp : Fmt.UNSET, Appenders.value(l, arg), NullV.NULL) : null;
    for (Out o : outs) {
      if (o.st.facts.andGe(Appenders.COUNT.add(-stars - 1)) == null) continue; // missing argument: C03
      boolean printed = !Appenders.events(o, "ACCEPT").isEmpty();
      Choose.each(o.st.facts, ch -> {
        ch.assumeGe(Appenders.COUNT.add(-stars - 1));
        boolean neg = sw && !ch.ge(aw);
        boolean ok = true;
        if (sw) ok = ch.ge(Lin.of(Spec.MAX).sub(neg ? aw.neg() : aw));
        boolean pset = sp && ch.ge(ap);
        if (pset) ok = ok && ch.ge(Lin.of(Spec.MAX).sub(ap));
        if (!ok) {
          verdict(limit, inst, o, ch.f, o.thrown && !printed && a.printfException(o),
              o.thrown ? "too large a value ends in " + throwsText(in, o) + (printed ? " after output" : "") : "too large a value is accepted");
          return;
        }
        Facts g = ch.f;
        if (sw) g = g.andEq(rw.sub(neg ? aw.neg() : aw));
        if (g != null && sp) g = g.andEq(rp.sub(pset ? ap : Fmt.UNSET));
        if (g == null) return;
        for (Out n : neg ? lefty : plain) {
          if (!compatible(o.st, n.st)) continue;
          Facts b = g.and(n.st.facts);
          if (b == null) continue;
          if (o.thrown || n.thrown) {
            boolean same = o.thrown && n.thrown && exClass(in, o).equals(exClass(in, n));
            verdict(rule, inst, o, b, same, o.thrown ? "a value within the limits is rejected: " + throwsText(in, o) : "no exception although the conversion fails");
            continue;
          }
          List<Event> acc = Appenders.events(o, "ACCEPT");
          if (acc.size() != 1) continue;
          text(rule, inst, o, n.st.lossy, b, ((TextV) acc.get(0).args.get(0)).segs, a.fmt.text(n));
        }
      });
    }
    done(in);
  }
}
