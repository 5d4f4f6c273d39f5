package fpv;

import java.math.BigInteger;
import java.util.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;

/** Routines of newer runtimes found by lookup, their fallbacks, and the way the choice is made. */
final class R24 extends Rule {
  @Override
  String explain() {
    return "Every method-handle lookup in the program is found in the call graph. The initialisers of the classes that look up are "
        + "abstractly interpreted with the lookup succeeding and failing in each way it can: none may end in an exception. The "
        + "methods that use the result are interpreted under both choices: appending a repeated character must append exactly "
        + "that many for all characters and counts, and the high product must equal floor(x*y / 2^64), shown by bringing wrapping "
        + "arithmetic, masks and shifts to a polynomial normal form. Exact invocations must have the type of the handle. The "
        + "sources compile against the Java 8 platform alone.";
  }

  private static final String MH = Spec.P + "util/internal/MultiplyHigh", REPEATED = Spec.P + "seq/Repeated", SEQ = Spec.P + "seq/Seq";

  @Override
  void run() {
    Calls g = new Calls(prog);
    Set<String> lookups = new TreeSet<>();
    for (Map.Entry<Prog.M, List<Calls.Site>> e : g.sites.entrySet())
      for (Calls.Site s : e.getValue())
        if (s.owner.startsWith("java/lang/invoke/MethodHandles") || s.owner.startsWith("java/lang/reflect/") && !s.owner.equals("java/lang/reflect/Array") || s.owner.equals("java/lang/Class") && (s.name.equals("forName") || s.name.startsWith("getMethod") || s.name.startsWith("getDeclared"))) lookups.add(e.getKey().cls.name);
    rep.extra.put("classes_with_lookups", lookups);
    for (String c : lookups) attempt("class-loading", c, () -> loads(c));
    // every other class must load as well, whatever the lookups give
    for (String c : prog.classes.keySet()) if (!lookups.contains(c) && prog.declared(c, "<clinit>", "()V") != null) attempt("class-loading", c, () -> loads(c));
    if (!prog.isRepo(MH)) throw new AnchorMissing(MH);
    attempt("high-product", "multiplyHigh", () -> product("multiplyHigh"));
    if (!prog.named(MH, "slowMultiplyHigh").isEmpty()) attempt("high-product", "slowMultiplyHigh", () -> product("slowMultiplyHigh"));
    attempt("repeat", "Seq.repeated", this::repeat);
    if (!prog.named(REPEATED, "appendRepeated").isEmpty()) attempt("repeat", "appendRepeated", this::fallback);
    rep.proved("java-8", "all " + prog.sourceFiles + " sources compile with --release 8");
  }

  private void loads(String cls) {
    Interp in = interp(false);
    in.partWraps = false;
    in.unrollFirst = true;
    in.ensureInit(cls);
    List<Out> outs = in.initOutcomes.get(cls);
    if (outs == null) {
      rep.undecided("class-loading", cls, in.initFailures.getOrDefault(cls, "not interpreted"));
      return;
    }
    for (Out o : outs) verdict("class-loading", cls, o, o.st.facts, !o.thrown, o.thrown ? "the initialiser " + throwsText(in, o) : "");
    done(in);
  }

  private void product(String name) {
    Interp in = interp(false);
    in.partWraps = false;
    T x = T.of("x", "J"), y = T.of("y", "J");
    for (Prog.M m : prog.named(MH, name)) {
      if (!m.node.desc.equals("(JJ)J") || !m.isStatic()) continue;
      for (Out o : in.exec(m, Arrays.asList(Lin.of(x), Lin.of(y)), new State())) {
        if (o.thrown) {
          verdict("high-product", name, o, o.st.facts, false, throwsText(in, o));
          continue;
        }
        same("high-product", name, o, (Lin) o.val, Lin.of(T.of("multiplyHigh", "J", Lin.of(x), Lin.of(y))), x, y);
      }
    }
    done(in);
  }

  private static final String[] CORNERS = {"0", "1", "-1", "2", "4294967295", "4294967296", "-4294967296", "4294967297", "2147483648", "-2147483649", "9223372036854775807", "-9223372036854775808", "6148914691236517205", "-6148914691236517206", "1311768467463790320"};

  /** Equal normal forms prove; a corner where the normal forms have different values refutes. */
  private void same(String rule, String inst, Out o, Lin got, Lin want, T... vars) {
    Poly.Reader r = new Poly.Reader(o.st.facts);
    Collections.addAll(r.split, vars);
    Poly p = r.read(got), q = r.read(want), d = p.sub(q);
    if (d.isZero() || d.unsigned(64).isZero()) {
      rep.proved(rule, inst);
      return;
    }
    for (String a : CORNERS)
      for (String b : CORNERS) {
        Map<String, BigInteger> env = new HashMap<>();
        Facts f = o.st.facts;
        BigInteger[] v = {new BigInteger(a), new BigInteger(b)};
        for (int i = 0; i < 2; i++) {
          f = f == null ? null : f.andEq(Lin.of(vars[i]).sub(Lin.of(v[i])));
          env.put(vars[i] + ".high", v[i].shiftRight(32));
          env.put(vars[i] + ".low", v[i].and(BigInteger.valueOf(0xFFFFFFFFL)));
        }
        Map<String, Poly.Atom> used = new HashMap<>();
        d.vars(used);
        if (f == null || o.st.lossy || !env.keySet().containsAll(used.keySet())) continue;
        if (d.at(env).signum() != 0) {
          rep.refuted(rule, inst, where(o), "computes " + cut("" + got), "normal form " + cut("" + p), "instead of " + cut("" + q), "for example: x=" + a + ", y=" + b);
          return;
        }
      }
    rep.undecided(rule, inst, "normal form " + cut("" + p) + " vs " + cut("" + q));
  }

  private static final Lin C = Lin.of(T.of("c", "C")), N = Lin.of(T.of("count", "I", BigInteger.ZERO, BigInteger.valueOf(Spec.MAX)));

  private void repeat() {
    Interp in = interp(false);
    Spec s = new Spec(in);
    for (Out q : s.call(new State(), SEQ, "repeated", "(CI)L" + Spec.P + "seq/AtomicSeq;", C, N)) {
      if (q.thrown) continue;
      T before = T.of("before", Models.STR);
      Val sb = q.st.alloc(new HObj(Models.SB, Collections.emptyMap(), Seg.whole(before), null));
      for (Out o : in.invoke(q.st, Opcodes.INVOKEINTERFACE, SEQ, "appendTo", "(Ljava/lang/StringBuilder;)V", Arrays.asList(q.val, sb), "rule")) appended(in, "Seq.repeated, choice " + o.st.choices, o, sb, before);
    }
    done(in);
  }

  private void appended(Interp in, String inst, Out o, Val sb, T before) {
    if (o.thrown) verdict("repeat", inst, o, o.st.facts, false, throwsText(in, o));
    else text("repeat", inst, o, o.st.facts, in.obj(o.st, sb).text(), Seg.concat(Seg.whole(before), Seg.of(Seg.run(C, N))));
  }

  private void fallback() {
    Interp in = interp(false);
    Spec s = new Spec(in);
    State st = new State();
    Val r = s.make(st, REPEATED, "(CI)V", C, N);
    T before = T.of("before", Models.STR);
    Val sb = st.alloc(new HObj(Models.SB, Collections.emptyMap(), Seg.whole(before), null));
    for (Out o : s.call(st, REPEATED, "appendRepeated", "(Ljava/lang/StringBuilder;L" + REPEATED + ";)V", sb, r)) appended(in, "appendRepeated", o, sb, before);
    done(in);
  }
}
