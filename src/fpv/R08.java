package fpv;

import java.util.*;

/** Compiling any string ends with a formatter or with the library's own exceptions. */
final class R08 extends Rule {
  @Override
  String explain() {
    return "Compiler.compile is abstractly interpreted on an entirely unknown string, and on unknown strings of many shapes (arbitrary characters "
        + "after '%', directives cut short at every point, numbers of up to 20 unknown digits, open and odd date patterns). Every exceptional "
        + "outcome must be the library's syntax or limit exception and a reported position lie between 0 and the length of the string. "
        + "The call graph from FastPrintf.compile must have no cycle, so that the stack needed does not grow with the string.";
  }

  private Interp in;
  private Formats f;

  @Override
  void run() {
    in = interp(true);
    f = new Formats(in);
    attempt("no-recursion", "FastPrintf.compile", this::recursion);
    String[] forms = {
      "", "-", "+ ", "5", "9999", "0", "*", "*.", ".", ".*", ".9", ".9999", "9.", "9.9", "-9.9", "d", "5d", "l", "t", "t{", "t{}", "t{y", "t{?", "t{??", "t{???", "t{'", "t{'?", "t{'?'",
      "t{''", "t{'''", "T{y}", "t{?}{", "%", "s%", "d{", "n", "p", "-*", "*9", "*.*9", ".-", "..", ".*.", "9*", "#0- +"
    };
    for (String form : forms)
      for (int tail = 0; tail < 5; tail++) {
        int t = tail;
        for (int pre = 0; pre < 2; pre++) {
          int p = pre;
          one(() -> {
            if (p == 1) f.literal("");
            f.lit("%");
            shape(form);
            if (t == 1 || t == 2) f.any();
            if (t == 2) f.lit("yd}");
            if (t == 3) f.lit("%");
            if (t == 4) {
              f.any();
              f.any();
            }
          });
        }
      }
    for (int n = 5; n <= 20; n++) {
      int k = n;
      one(() -> {
        f.lit("%");
        f.number(k, '0');
        f.lit("d");
      });
      one(() -> {
        f.lit("%.");
        f.number(k, '0');
        f.lit("d");
      });
    }
    for (int n = 1; n <= 20; n++) {
      int k = n;
      for (String before : new String[] {"%", "%.", "%3.", "%*."})
        one(() -> {
          f.lit(before);
          f.number(k, '0');
        });
    }
    one(() -> {
      f.lit("%");
      f.any();
      f.any();
      f.any();
    });
    one(() -> {
      f.any();
      f.any();
      f.any();
    });
    one(() -> {
    });
    if (rep.total(1) > 0) return;
    Interp all = interp(true);
    in = all;
    f = new Formats(all);
    all.unrollFirst = false;
    one(() -> f.rest());
    done(all);
  }

  private void shape(String s) {
    for (char c : s.toCharArray())
      if (c == '?') f.any();
      else if (c == '9') f.digit('0');
      else f.lit("" + c);
  }

  private void one(Runnable shape) {
    f.reset();
    attempt("compile-outcome", "format", () -> {
      shape.run();
      String inst = "format " + cut(Seg.show(f.text));
      Lin len = Seg.len(f.text);
      for (Out o : f.compile()) {
        if (!o.thrown) {
          rep.proved("compile-outcome", inst);
          continue;
        }
        boolean syntax = f.syntaxError(o), own = in.prog.isSub(in.classOf(o.st, o.val), Appenders.PRINTF_EX);
        verdict("compile-outcome", inst, o, o.st.facts, syntax || own, throwsText(in, o));
        if (!syntax) continue;
        Val i = f.spec.only(f.spec.call(o.st, Formats.SYNTAX, "getIndex", "()I", o.val), "getIndex").val;
        geq("error-position", inst, o, o.st.facts, (Lin) i, "the reported position is negative");
        geq("error-position", inst, o, o.st.facts, len.sub((Lin) i), "the reported position is beyond the end of the format");
      }
    });
  }

  private void recursion() {
    CallGraph g = new CallGraph(prog);
    Prog.M root = prog.declared(Spec.P + "FastPrintf", "compile", "(Ljava/lang/String;)L" + Spec.P + "FastPrintf;");
    if (root == null) throw new AnchorMissing("FastPrintf.compile(String)");
    // bodies of lambdas run when formatting; toString() of messages' arguments is the JDK's or the argument's own
    java.util.function.Predicate<CallGraph.Site> runs = s -> !(s.insn instanceof org.objectweb.asm.tree.InvokeDynamicInsnNode) && !s.owner.equals("java/lang/Object");
    Map<Prog.M, CallGraph.Site> reach = g.reachable(Collections.singleton(root), runs);
    for (List<Prog.M> c : g.cycles(reach.keySet(), runs)) rep.refuted("no-recursion", "" + c.get(0), CallGraph.path(reach, c.get(c.size() - 1)), "compiling can call itself in a circle: " + c);
    for (Prog.M m : reach.keySet()) rep.analysed.add(m.toString());
    rep.proved("no-recursion", "FastPrintf.compile");
  }
}
