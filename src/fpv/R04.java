package fpv;

import java.util.*;

/** Field width: the output is the natural text (the same call without a width) padded to the width. */
final class R04 extends Rule {
  @Override
  String explain() {
    return "Every conversion function is abstractly interpreted twice for all flags, precisions and values at once: "
        + "with an arbitrary width and without one. For each pair of compatible outcomes the first text must be the second "
        + "one with blanks on the left (right with '-') up to the width; under the numeric '0' flag its length must be "
        + "max(width, natural length).";
  }

  @Override
  void run() {
    for (char c : "douxcsptfeag".toCharArray()) {
      String inst = "%" + c;
      attempt("width-pads", inst, () -> conv(c));
    }
  }

  private void conv(char c) {
    Interp in = interp(true);
    Fmt f = new Fmt(in);
    Lin w = Spec.bounded("width"), p = Spec.bounded("prec");
    Val dtf = T.of("nullable:dtf", "Ljava/time/format/DateTimeFormatter;");
    List<Out> xs = f.run(c, Spec.symbolicFlags(), w, p, Fmt.arg(c), dtf);
    List<Out> ns = f.run(c, Spec.symbolicFlags(), Fmt.UNSET, p, Fmt.arg(c), dtf);
    String inst = "%" + c;
    for (Out x : xs)
      for (Out n : ns) {
        if (!compatible(x.st, n.st)) continue;
        Facts b = x.st.facts.and(n.st.facts);
        if (b == null) continue;
        boolean lossy = n.st.lossy;
        if (x.thrown || n.thrown) {
          if (x.thrown && n.thrown && exClass(in, x).equals(exClass(in, n))) rep.proved("width-same-outcome", inst);
          else if (!lossy && solid(x.st, b))
            rep.refuted("width-same-outcome", inst, where(x), "with a width: " + show(in, x), "without: " + show(in, n), "for example: " + witness(b));
          else rep.undecided("width-same-outcome", inst, show(in, x) + " / " + show(in, n));
          continue;
        }
        List<Seg> got = f.text(x), nat = f.text(n);
        Lin len = Seg.len(nat);
        boolean special = Fmt.FLOATS.indexOf(c) >= 0;
        Choose.each(b, ch -> {
          boolean zero = Fmt.numeric(c) && ch.is(Spec.flag("ZERO_PAD"));
          boolean left = ch.is(Spec.flag("LEFT_JUSTIFY"));
          if (zero && special && Fmt.special(ch, Fmt.arg(c))) zero = false;
          Lin total = ch.max(w, len);
          if (zero && !left) {
            equal("width-length", inst, x, ch.f, Seg.len(got), total, "length");
            return;
          }
          List<Seg> pad = new ArrayList<>();
          Seg.push(pad, Seg.run(Lin.of(' '), total.sub(len)));
          text("width-pads", inst, x, lossy, ch.f, got, left ? Seg.concat(nat, pad) : Seg.concat(pad, nat));
        });
      }
    done(in);
  }

  private String show(Interp in, Out o) {
    return o.thrown ? throwsText(in, o) : cut("prints " + o.val);
  }
}
