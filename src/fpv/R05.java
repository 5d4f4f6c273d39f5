package fpv;

import java.util.*;

/** Sign, prefix, zeros, digits: every flag combination against the flagless text of the same value. */
final class R05 extends Rule {
  @Override
  String explain() {
    return "Every numeric conversion function is abstractly interpreted for all flag sets, widths, precisions and values, "
        + "and again without flags and width. The second text, less its minus sign, is the digit text; the first one must be "
        + "sign ++ radix prefix ++ zeros of the '0' flag ++ digit text, padded with blanks when zeros do not apply.";
  }

  @Override
  void run() {
    for (char c : "douxfega".toCharArray()) attempt("number-layout", "%" + c, () -> conv(c));
  }

  private void conv(char c) {
    Interp in = interp(true);
    Fmt f = new Fmt(in);
    Lin w = Spec.bounded("width"), p = Spec.bounded("prec");
    Val v = Fmt.arg(c);
    boolean flt = Fmt.FLOATS.indexOf(c) >= 0, signed = flt || c == 'd';
    Map<String, Lin> base = Fmt.noFlags();
    if (flt) base.put("ALTERNATE", Spec.flag("ALTERNATE"));
    List<Out> xs = f.run(c, Spec.symbolicFlags(), w, p, v, NullV.NULL);
    List<Out> ns = f.run(c, base, Fmt.UNSET, p, v, NullV.NULL);
    String inst = "%" + c;
    for (Out n : ns) {
      if (n.thrown) continue;
      List<Seg> nat = f.text(n);
      boolean neg = Fmt.startsWith(nat, "-");
      if (!flt) {
        // the minus sign is there exactly when the value is negative (never for unsigned conversions)
        Lin s = Fmt.signum(v);
        if (!signed) {
          if (!neg) rep.proved("minus-sign", inst);
          else if (solid(n.st, n.st.facts)) rep.refuted("minus-sign", inst, where(n), "unsigned conversion prints " + Seg.show(nat), "for example: " + witness(n.st.facts));
        } else {
          Facts bad = neg ? n.st.facts.andGe(s) : n.st.facts.andGe(s.neg().add(-1));
          if (bad == null) rep.proved("minus-sign", inst);
          else if (solid(n.st, bad)) rep.refuted("minus-sign", inst, where(n), (neg ? "minus sign on a value that is not negative: " : "no minus sign on a negative value: ") + Seg.show(nat), "for example: " + witness(bad));
          else rep.undecided("minus-sign", inst, Seg.show(nat));
        }
      }
      for (Out x : xs) {
        if (x.thrown || !compatible(x.st, n.st)) continue;
        Facts b = x.st.facts.and(n.st.facts);
        if (b == null) continue;
        List<Seg> got = f.text(x);
        Choose.each(b, ch -> {
          boolean special = flt && Fmt.special(ch, v);
          List<Seg> body = neg ? Fmt.drop(nat, 1) : nat;
          boolean alt = !flt && ch.is(Spec.flag("ALTERNATE"));
          boolean nonzero = flt || !ch.eq(Fmt.signum(v));
          if (c == 'o' && alt && !nonzero && ch.eq(p)) return; // '#.0o' of zero is left open
          String sign = neg ? "-" : !signed || special && ch.is(Lin.of(T.of(".isNaN", "Z", v))) ? "" : ch.is(Spec.flag("PLUS")) ? "+" : ch.is(Spec.flag("LEADING_SPACE")) ? " " : "";
          String prefix = "";
          if (c == 'x' && alt && nonzero) prefix = "0x";
          if (c == 'o' && alt && nonzero && !startsWithZero(ch, body)) prefix = "0";
          if (c == 'a' && !special) {
            if (!Fmt.startsWith(body, "0x")) throw new Undecided("%a text does not start with 0x: " + Seg.show(body));
            prefix = "0x";
            body = Fmt.drop(body, 2);
          }
          List<Seg> head = Seg.lit(sign + prefix);
          Lin len = Seg.len(head).add(Seg.len(body));
          Lin fill = ch.max(w.sub(len), Lin.ZERO);
          boolean left = ch.is(Spec.flag("LEFT_JUSTIFY"));
          boolean zero = !special && !left && ch.is(Spec.flag("ZERO_PAD")) && (flt || ch.eq(p.add(1)));
          List<Seg> want;
          if (zero) want = Seg.concat(Seg.concat(head, Seg.of(Seg.run(Lin.of('0'), fill))), body);
          else {
            List<Seg> pad = Seg.of(Seg.run(Lin.of(' '), fill));
            want = Seg.concat(head, body);
            want = left ? Seg.concat(want, pad) : Seg.concat(pad, want);
          }
          text("number-layout", inst, x, n.st.lossy, ch.f, got, want);
        });
      }
    }
    done(in);
  }

  /** Digits of a nonzero value start with a nonzero digit, so a leading zero comes from the precision. */
  private boolean startsWithZero(Choose ch, List<Seg> body) {
    if (body.isEmpty()) return false;
    Seg s = body.get(0);
    if (s.k == Seg.K.LIT) return s.lit.startsWith("0");
    if (s.k == Seg.K.RUN && s.ch.isConst() && s.ch.c.intValue() == '0') return ch.ge(s.n.add(-1));
    return false;
  }
}
