package fpv;

import java.util.*;

/** Formatting calls write only to what they made themselves, to the destination and to values of their own thread. */
final class R01 extends Rule {
  final boolean arguments; // only what belongs to the arguments

  R01(boolean arguments) {
    this.arguments = arguments;
  }

  @Override
  String explain() {
    return "A points-to and write-effect analysis of the whole program (inclusion based, field sensitive, call strings of length "
        + Effects.DEPTH + " on methods and allocations) is solved for a user that compiles and configures formatters, builds argument lists and "
        + "sequences, and formats. Every field store, array store and changing platform call that a formatting call can reach is "
        + (arguments
            ? "judged: its targets must not include the argument list, the argument objects or anything they hold."
            : "judged: its targets must be objects made by the call, the destination, or values of a ThreadLocal made by the thread; "
                + "objects and static fields shared by calls must not be written, neither by compiling a format.")
        + " A single-word field filled when unset from its own object alone is a repeatable cache and is allowed.";
  }

  @Override
  void run() {
    Effects fx = new Effects(prog);
    fx.solve();
    if (fx.roots.isEmpty()) throw new AnchorMissing(Spec.P + "FastPrintf.format");
    int formatting = 0;
    Map<String, Boolean> sites = new LinkedHashMap<>();
    for (Effects.Write w : fx.writes) {
      Effects.Phase p = w.in.phase;
      if (p == Effects.Phase.STATIC || p == Effects.Phase.ARGS && arguments || p == Effects.Phase.SETUP && arguments) continue;
      rep.analysed.add(w.in.m.id());
      if (p == Effects.Phase.FORMAT) formatting++;
      String inst = w.what + " at " + w.where + (p == Effects.Phase.FORMAT ? "" : p == Effects.Phase.SETUP ? " while compiling" : " while building arguments");
      boolean bad = false;
      for (Effects.Node n : w.to) {
        if (!shared(p, n)) continue;
        bad = true;
        if (w.cache != null) rep.proved("cache", inst + ": " + w.cache);
        else if (w.in.locked) rep.undecided("write", inst, "under a lock");
        else rep.refuted("write", inst, w.where, "writes " + w.what + " of " + n, "reached by: " + w.in.path());
      }
      if (!bad) sites.putIfAbsent(inst, true);
    }
    for (String s : sites.keySet()) rep.proved("write", s);
    rep.extra.put("contexts", fx.insts.size());
    rep.extra.put("objects", fx.nodes.size());
    rep.extra.put("rounds", fx.rounds);
    rep.extra.put("writes_while_formatting", formatting);
    rep.extra.put("entry_points", fx.roots.toString());
    if (formatting == 0) throw new AnchorMissing("writes of the formatting calls");
  }

  private boolean shared(Effects.Phase p, Effects.Node n) {
    switch (n.phase) {
      case STATIC:
        return !arguments && (p == Effects.Phase.FORMAT || p == Effects.Phase.SETUP);
      case SETUP:
        return !arguments && p == Effects.Phase.FORMAT;
      case ARGS:
      case USER:
        return p == Effects.Phase.FORMAT;
      default:
        return false;
    }
  }
}
