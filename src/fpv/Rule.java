package fpv;

import java.math.BigInteger;
import java.util.*;

/** Base of the checks: access to the program, the report, and the comparison of texts and values. */
abstract class Rule {
  Prog prog;
  Report rep;

  abstract void run();

  /** What the evidence says was analysed and which rule was applied. */
  abstract String explain();

  Interp interp(boolean modelSeq) {
    Interp in = new Interp(prog);
    in.modelSeq = modelSeq;
    return in;
  }

  void done(Interp in) {
    rep.analysed.addAll(in.analysed);
  }

  static String where(Out o) {
    List<String> b = o.st.lastBranches(4);
    return b.isEmpty() ? "(straight line)" : String.join(" > ", b);
  }

  String exClass(Interp in, Out o) {
    return in.classOf(o.st, o.val);
  }

  String throwsText(Interp in, Out o) {
    HObj h = in.obj(o.st, o.val);
    Val w = h == null ? null : h.fields.get("$where");
    return "throws " + exClass(in, o).replace('/', '.') + (w == null ? "" : " at " + w);
  }

  static boolean compatible(State a, State b) {
    for (Map.Entry<T, RefInfo> e : a.refs.entrySet()) {
      RefInfo x = e.getValue(), y = b.refs.get(e.getKey());
      if (y == null) continue;
      if (x.nullness != 0 && y.nullness != 0 && x.nullness != y.nullness) return false;
      for (String c : x.is) if (y.not.contains(c)) return false;
      for (String c : y.is) if (x.not.contains(c)) return false;
    }
    for (Map.Entry<String, Integer> e : a.choices.entrySet()) {
      Integer o = b.choices.get(e.getKey());
      if (o != null && !o.equals(e.getValue())) return false;
    }
    return true;
  }

  /** A refutation counts only when the facts have an integer point and nothing on the way was over-approximated. */
  boolean solid(State st, Facts f) {
    return !st.lossy && !f.opaque() && Cong.find(f).where != null;
  }

  static String witness(Facts f) {
    Facts w = Cong.find(f).where;
    Map<T, BigInteger> m = w == null ? null : w.point();
    if (m == null) return f.toString();
    StringBuilder sb = new StringBuilder();
    for (Map.Entry<T, BigInteger> e : m.entrySet()) {
      if (sb.length() > 600) break;
      if (sb.length() > 0) sb.append(", ");
      sb.append(e.getKey()).append('=').append(e.getValue());
    }
    return sb.toString();
  }

  void text(String rule, String inst, Out o, Facts f, List<Seg> got, List<Seg> want) {
    text(rule, inst, o, false, f, got, want);
  }

  void text(String rule, String inst, Out o, boolean lossy, Facts f, List<Seg> got, List<Seg> want) {
    SegCmp.R r = SegCmp.compare(got, want, f);
    if (r.verdict == SegCmp.EQ) {
      rep.proved(rule, inst);
      return;
    }
    if (r.verdict == SegCmp.NEQ && !lossy && solid(o.st, r.where))
      rep.refuted(rule, inst, where(o), "printed: " + cut(Seg.show(got)), "expected: " + cut(Seg.show(want)), "difference: " + cut(r.why), "for example: " + witness(r.where));
    else rep.undecided(rule, inst, (r.verdict == SegCmp.NEQ ? why(o.st, r.where) : "") + cut(r.why));
  }

  /** Why a difference does not count as a refutation. */
  static String why(State st, Facts f) {
    if (st.lossy) return "[over-approximated path] ";
    if (f.opaque()) return "[unknown value " + cut("" + f.unknown()) + "] ";
    return "[no example] ";
  }

  /** Requires l >= 0 under the facts. */
  void geq(String rule, String inst, Out o, Facts f, Lin l, String what) {
    if (f.entailsGe(l)) {
      rep.proved(rule, inst);
      return;
    }
    Facts g = f.andGe(l.neg().add(-1));
    if (g == null || Cong.find(g).impossible) rep.proved(rule, inst);
    else if (!T.isOpaque(l) && solid(o.st, g)) rep.refuted(rule, inst, where(o), what, "for example: " + witness(g));
    else rep.undecided(rule, inst, what);
  }

  void equal(String rule, String inst, Out o, Facts f, Lin a, Lin b, String what) {
    Facts g = SegCmp.congruence(a, b, f);
    if (g == null || g.entailsEq(a.sub(b))) {
      rep.proved(rule, inst);
      return;
    }
    Facts h = g.andNe(a.sub(b));
    if (h == null || Cong.find(h).impossible) rep.proved(rule, inst);
    else if (!T.isOpaque(a) && !T.isOpaque(b) && solid(o.st, h)) rep.refuted(rule, inst, where(o), what + ": " + cut("" + a) + " instead of " + cut("" + b), "for example: " + witness(h));
    else rep.undecided(rule, inst, what + ": " + cut("" + a) + " vs " + cut("" + b));
  }

  /** Records the verdict on one cell of the partition. */
  void verdict(String rule, String inst, Out o, Facts f, boolean ok, String what) {
    if (ok || Cong.find(f).impossible) rep.proved(rule, inst);
    else if (solid(o.st, f)) rep.refuted(rule, inst, where(o), cut(what), "for example: " + witness(f));
    else rep.undecided(rule, inst, cut(what));
  }

  static String cut(String s) {
    return s.length() > 400 ? s.substring(0, 400) + "..." : s;
  }

  /** Most time one instance may take, in seconds. */
  int limit = 200;

  /** Runs one instance; a give-up of the analysis is recorded, not reported as a violation. */
  void attempt(String rule, String inst, Runnable body) {
    long outer = Interp.deadline, t0 = System.nanoTime();
    Interp.deadline = Math.min(outer, t0 + limit * 1_000_000_000L);
    try {
      body.run();
    } catch (Undecided u) {
      rep.undecided(rule, inst, cut("" + u.getMessage()));
    } catch (AnchorMissing e) {
      rep.undecided(rule, inst, "program element not found: " + e.getMessage());
    } catch (StackOverflowError e) {
      rep.undecided(rule, inst, "analysis stack");
    } catch (NullPointerException | ClassCastException | IndexOutOfBoundsException | IllegalArgumentException | ArithmeticException e) {
      // a construct the transfer functions were not written for
      if (TRACE) e.printStackTrace(System.out);
      StackTraceElement[] s = e.getStackTrace();
      rep.undecided(rule, inst, "no transfer function: " + e.getClass().getSimpleName() + (s.length > 0 ? " at " + s[0] : ""));
    } finally {
      Interp.deadline = outer;
    }
    if (TRACE && System.nanoTime() - t0 > 500_000_000L) System.out.println("trace: " + rule + " | " + inst + " " + (System.nanoTime() - t0) / 1_000_000 + " ms");
  }

  private static final boolean TRACE = Boolean.getBoolean("fpv.trace");
}
