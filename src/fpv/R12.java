package fpv;

import java.math.BigInteger;
import java.util.*;

/** Integers of every type, through the entry points, traits, number wrappers and conversions, against their exact value. */
final class R12 extends Rule {
  @Override
  String explain() {
    return "For each integer type and each way of adding an argument, the real entry point, traits, number wrapper and "
        + "conversion function are abstractly interpreted for all values, flags, widths and precisions. The printed text must be "
        + "the layout of the digits of the exact value: its magnitude for d and i, its two's complement value in the width of "
        + "its own type for u, o and x. A negative big integer must make an unsigned conversion fail with the library's exception.";
  }

  @Override
  void run() {
    for (Entry.Kind k : Entry.INTEGERS)
      for (String way : Entry.WAYS)
        for (char c : "diuoxXsS".toCharArray()) {
          boolean all = way.equals("typed") || way.equals("generic");
          if (!all && "iXS".indexOf(c) >= 0) continue;
          if (k == Entry.CHAR && "sS".indexOf(c) >= 0) continue;
          String inst = "%" + c + " of " + k.name + ", " + way;
          attempt("digits", inst, () -> one(k, way, c, inst, way.equals("typed")));
        }
    attempt("digit-count", "int", () -> size("I"));
    attempt("digit-count", "long", () -> size("J"));
  }

  private void one(Entry.Kind k, String way, char letter, String inst, boolean full) {
    Interp in = interp(true);
    in.unrollFirst = true;
    Entry e = new Entry(in);
    char c = letter == 'i' ? 'd' : letter == 'X' ? 'x' : letter == 'S' ? 's' : letter;
    Lin w = full ? Spec.bounded("width") : Fmt.UNSET, p = full && c != 's' ? Spec.bounded("prec") : Fmt.UNSET;
    Map<String, Lin> flags = full ? Spec.symbolicFlags() : Fmt.noFlags();
    Lin v = k.value instanceof BigV ? ((BigV) k.value).v : (Lin) k.value;
    int radix = c == 'o' ? 8 : c == 'x' ? 16 : 10;
    in.models.lazyListener = (st, n, t, where) -> declared(inst, st, n, t);
    for (Out args : e.give(new State(), way, k)) {
      if (args.thrown) {
        verdict("digits", inst, args, args.st.facts, false, throwsText(in, args));
        continue;
      }
      for (Out o : e.print(args, letter, flags, w, p, NullV.NULL)) {
        if (o.thrown) {
          Facts f = o.st.facts;
          boolean unsigned = "uox".indexOf(c) >= 0;
          if (k == Entry.BIG && unsigned) {
            Facts bad = f.andGe(v);
            if (bad != null) verdict("digits", inst, o, bad, false, throwsText(in, o));
            else verdict("negative-unsigned", inst, o, f, e.app.printfException(o), throwsText(in, o));
          } else verdict("digits", inst, o, f, false, throwsText(in, o));
          continue;
        }
        List<Event> acc = Appenders.events(o, "ACCEPT");
        if (acc.size() != 1) {
          verdict("digits", inst, o, o.st.facts, false, acc.size() + " pieces of output");
          continue;
        }
        List<Seg> got = ((TextV) acc.get(0).args.get(0)).segs;
        Choose.each(o.st.facts, ch -> {
          boolean neg = !ch.ge(v);
          if (k == Entry.BIG && neg && "uox".indexOf(c) >= 0) {
            verdict("negative-unsigned", inst, o, ch.f, false, "prints " + Seg.show(got));
            return;
          }
          List<Seg> want = layout(ch, c, k.bits, v, neg, flags, w, p);
          if (want == null) return;
          if (letter != c) want = Seg.upper(want);
          text("digits", inst, o, ch.f, got, want);
        });
      }
    }
    done(in);
  }

  private List<Seg> layout(Choose ch, char c, int bits, Lin v, boolean neg, Map<String, Lin> flags, Lin w, Lin p) {
    boolean alt = ch.is(flags.get("ALTERNATE")), left = ch.is(flags.get("LEFT_JUSTIFY"));
    boolean zero = ch.eq(v);
    Lin m = !neg ? v : c == 'd' || c == 's' ? v.neg() : v.add(Lin.of(Terms.pow2(bits)));
    int radix = c == 'o' ? 8 : c == 'x' ? 16 : 10;
    List<Seg> digits = zero ? Seg.lit("0") : Terms.nat(radix, m);
    boolean unset = ch.eq(p.add(1));
    if (c == 'o' && alt && zero && !unset && ch.eq(p)) return null; // '#.0o' of zero is left open
    Lin zeros = unset ? Lin.ZERO : ch.max(p.sub(Seg.len(digits)), Lin.ZERO);
    if (zero && !unset && ch.eq(p)) {
      digits = Seg.lit("");
      zeros = Lin.ZERO;
    }
    String sign = "";
    if (c == 'd') sign = neg ? "-" : ch.is(flags.get("PLUS")) ? "+" : ch.is(flags.get("LEADING_SPACE")) ? " " : "";
    if (c == 's') sign = neg ? "-" : "";
    if (c == 'x' && alt && !zero) sign = "0x";
    if (c == 'o' && alt && !zero && !ch.ge(zeros.add(-1))) sign = "0";
    List<Seg> body = Seg.concat(Seg.concat(Seg.lit(sign), Seg.of(Seg.run(Lin.of('0'), zeros))), digits);
    Lin fill = ch.max(w.sub(Seg.len(body)), Lin.ZERO);
    if (c != 's' && unset && !left && ch.is(flags.get("ZERO_PAD")))
      return Seg.concat(Seg.concat(Seg.lit(sign), Seg.of(Seg.run(Lin.of('0'), fill))), digits);
    List<Seg> pad = Seg.of(Seg.run(Lin.of(' '), fill));
    return left ? Seg.concat(body, pad) : Seg.concat(pad, body);
  }

  /** A text produced on demand must have the length it was declared with. */
  private void declared(String inst, State st, Lin n, List<Seg> t) {
    Digits.each(st.facts, t, (f, len) -> equal("digit-count", inst, new Out(st, n, false), f, n, len, "declared length"));
  }

  private void size(String d) {
    Interp in = interp(true);
    in.unrollFirst = true;
    Spec s = new Spec(in);
    Lin v = Lin.of(T.of("value", d));
    for (Out o : s.call(new State(), Spec.P + "util/Utils", "stringSize", "(" + d + ")I", v)) {
      if (o.thrown) {
        verdict("digit-count", d, o, o.st.facts, false, throwsText(in, o));
        continue;
      }
      for (Out t : in.models.decimal(o.st.fork(), v)) Digits.each(t.st.facts, ((TextV) t.val).segs, (f, len) -> equal("digit-count", d, o, f, (Lin) o.val, len, "number of characters"));
    }
    done(in);
  }
}

/** Lengths of decimal texts by magnitude. */
final class Digits {
  interface Body {
    void at(Facts f, Lin len);
  }

  static void each(Facts f, List<Seg> t, Body b) {
    each(f, t, 0, Lin.ZERO, b);
  }

  private static void each(Facts f, List<Seg> t, int i, Lin len, Body b) {
    if (i == t.size()) {
      b.at(f, len);
      return;
    }
    Seg s = t.get(i);
    boolean nat = s.k == Seg.K.SUB && s.base.fn.equals("NAT") && f.entailsEq(s.from) && f.entailsEq(s.to.sub(Terms.len(s.base)));
    if (!nat) {
      each(f, t, i + 1, len.add(s.len()), b);
      return;
    }
    BigInteger radix = ((Lin) s.base.args.get(0)).c, lo = BigInteger.ZERO, hi = radix;
    Lin x = (Lin) s.base.args.get(1);
    for (int d = 1; d < 70; d++) {
      Facts g = f.andGe(x.sub(Lin.of(lo)));
      if (g == null) return;
      g = g.andGe(Lin.of(hi.subtract(BigInteger.ONE)).sub(x));
      g = g == null ? null : g.andEq(Terms.len(s.base).add(-d));
      if (g != null) each(g, t, i + 1, len.add(d), b);
      lo = hi;
      hi = hi.multiply(radix);
    }
  }

  private Digits() {}
}
