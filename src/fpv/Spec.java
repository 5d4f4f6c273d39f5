package fpv;

import java.util.*;
import org.objectweb.asm.Opcodes;

/** Construction of symbolic inputs for the analysed entry points. */
final class Spec {
  static final String P = "io/fastprintf/";
  static final String CTX = P + "FormatContext", LCTX = "L" + CTX + ";";
  static final String LSEQ = "Lio/fastprintf/seq/Seq;";
  static final String[] FLAGS = {"LEFT_JUSTIFY", "PLUS", "LEADING_SPACE", "ALTERNATE", "ZERO_PAD"};
  static final int MAX = 65536;

  final Interp in;

  Spec(Interp in) {
    this.in = in;
  }

  /** Membership atom of a flag. */
  static Lin flag(String f) {
    return Lin.of(T.of("flag:" + f, "Z"));
  }

  /** Width or precision as the parser produces it: -1 when absent, else 0..65536. */
  static Lin bounded(String name) {
    return Lin.of(T.of(name, "#", java.math.BigInteger.ONE.negate(), java.math.BigInteger.valueOf(MAX)));
  }

  static Map<String, Lin> symbolicFlags() {
    Map<String, Lin> m = new LinkedHashMap<>();
    for (String f : FLAGS) m.put(f, flag(f));
    return m;
  }

  Prog.M method(String cls, String name, String desc) {
    Prog.M m = in.prog.resolve(cls, name, desc);
    if (m == null) m = in.prog.declared(cls, name, desc);
    if (m == null) throw new AnchorMissing(cls.replace('/', '.') + "." + name + desc);
    return m;
  }

  List<Out> call(State st, String cls, String name, String desc, Val... args) {
    Prog.M m = method(cls, name, desc);
    return in.exec(m, Arrays.asList(args), st);
  }

  /** The single normal result of a call that must not branch. */
  Out only(List<Out> outs, String what) {
    Out r = null;
    for (Out o : outs) {
      if (o.thrown) continue;
      if (r != null) throw new Undecided(what + " has several results");
      r = o;
    }
    if (r == null) throw new Undecided(what + " has no normal result");
    return r;
  }

  Val make(State st, String cls, String desc, Val... args) {
    in.ensureInit(cls);
    Val o = st.alloc(in.models.fresh(cls));
    List<Val> a = new ArrayList<>();
    a.add(o);
    a.addAll(Arrays.asList(args));
    Prog.M m = in.prog.declared(cls, "<init>", desc);
    if (m == null) throw new AnchorMissing(cls.replace('/', '.') + "(" + desc + ")");
    Out out = only(in.exec(m, a, st), "new " + cls);
    if (out.st != st) throw new Undecided("constructor of " + cls + " branches");
    return o;
  }

  /** Normal outcomes of a constructor. */
  List<Out> makeAll(State st, String cls, String desc, Val... args) {
    in.ensureInit(cls);
    Val o = st.alloc(in.models.fresh(cls));
    List<Val> a = new ArrayList<>();
    a.add(o);
    a.addAll(Arrays.asList(args));
    Prog.M m = in.prog.declared(cls, "<init>", desc);
    if (m == null) throw new AnchorMissing(cls.replace('/', '.') + "(" + desc + ")");
    List<Out> r = new ArrayList<>();
    for (Out x : in.exec(m, a, st)) if (!x.thrown) r.add(new Out(x.st, o, false));
    if (r.isEmpty()) throw new Undecided("new " + cls + " has no normal result");
    return r;
  }

  List<Out> contexts(State st, Map<String, Lin> flags, Lin width, Lin precision, Val dtf) {
    in.ensureInit(P + "Flag");
    Val set = in.models.enumSetOf(st, P + "Flag", flags);
    List<Out> r = new ArrayList<>();
    for (Out o : call(st, CTX, "create", "(Ljava/util/EnumSet;IILjava/time/format/DateTimeFormatter;)" + LCTX, set, width, precision, dtf)) if (!o.thrown) r.add(o);
    if (r.isEmpty()) throw new Undecided("FormatContext.create has no normal result");
    return r;
  }

  Out context(State st, Map<String, Lin> flags, Lin width, Lin precision, Val dtf) {
    in.ensureInit(P + "Flag");
    Val set = in.models.enumSetOf(st, P + "Flag", flags);
    return only(call(st, CTX, "create", "(Ljava/util/EnumSet;IILjava/time/format/DateTimeFormatter;)" + LCTX, set, width, precision, dtf), "FormatContext.create");
  }
}

/** A program element a rule starts from does not exist. */
final class AnchorMissing extends RuntimeException {
  AnchorMissing(String m) {
    super(m);
  }
}
