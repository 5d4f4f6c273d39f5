package fpv;

import java.util.*;
import org.objectweb.asm.Opcodes;

/** Whole calls on compiled formatters, with stand-ins for argument lists, arguments and destinations. */
final class Printer {
  static final String FP = Spec.P + "FastPrintf", LFP = "L" + FP + ";", ARGS = Spec.P + "Args", LARGS = "L" + ARGS + ";";
  static final String LAPP = "Ljava/lang/Appendable;";

  final Interp in;
  final Spec spec;

  /** What printing an argument does besides yielding a text; null for an ordinary argument. */
  interface Behaviour {
    List<Out> print(State st, String where);
  }

  private final Map<T, Behaviour> behaviours = new HashMap<>();

  Printer(Interp in) {
    this.in = in;
    this.spec = new Spec(in);
    in.unrollFirst = true;
    in.models.capacities = true;
    in.hooks.add(this::hook);
  }

  static T arg(String name) {
    return T.of(name, Fmt.TRAITS);
  }

  T arg(String name, Behaviour b) {
    T t = arg(name);
    behaviours.put(t, b);
    return t;
  }

  /** The text of an ordinary argument. */
  static List<Seg> text(T arg) {
    return Seg.whole(T.of(".asSeq", Spec.LSEQ, arg));
  }

  Val args(State st, Val... traits) {
    Val list = st.alloc(new HObj("java/util/ArrayList", Collections.emptyMap(), new ArrayList<>(Arrays.asList(traits)), null));
    return st.alloc(new HObj("$Args").with("list", list));
  }

  Out compile(State st, String format) {
    Out o = spec.only(spec.call(st, FP, "compile", "(Ljava/lang/String;)" + LFP, TextV.str(format)), "compile");
    return o;
  }

  List<Out> virt(State st, String name, String desc, Val... a) {
    return in.invoke(st, Opcodes.INVOKEINTERFACE, FP, name, desc, Arrays.asList(a), name);
  }

  List<Out> format(State st, Val formatter, Val args) {
    return virt(st, "format", "(" + LARGS + ")Ljava/lang/String;", formatter, args);
  }

  List<Out> format(State st, Val formatter, Val dest, Val args) {
    return virt(st, "format", "(" + LAPP + LARGS + ")" + LAPP, formatter, dest, args);
  }

  List<Out> cache(State st, Val formatter) {
    return virt(st, "enableThreadLocalCache", "()" + LFP, formatter);
  }

  List<Out> capacity(State st, Val formatter, Lin n) {
    return virt(st, "setStringBuilderInitialCapacity", "(I)" + LFP, formatter, n);
  }

  /** A destination of unknown class. */
  static final T DEST = T.of("destination", LAPP);

  private List<Out> hook(Interp in, State st, String owner, String name, String desc, List<Val> a, String where) {
    if (a.isEmpty()) return null;
    Val r = a.get(0);
    HObj h = in.obj(st, r);
    if (h != null && h.cls.equals("$Args") && (owner.equals(ARGS) || owner.equals("java/lang/Iterable"))) {
      if (name.equals("iterator")) return in.invoke(st, Opcodes.INVOKEINTERFACE, "java/util/List", "iterator", "()Ljava/util/Iterator;", Collections.singletonList(h.fields.get("list")), where);
      throw new Undecided("argument list method " + name);
    }
    if (r instanceof T && behaviours.containsKey(r) && owner.equals(Spec.P + "traits/FormatTraits")) {
      if (name.equals("asSeq") || name.equals("asString")) return behaviours.get(r).print(st, where);
      if (name.equals("isNull")) return Out.ret(st, Lin.ZERO);
      throw new Undecided("argument method " + name);
    }
    if (r.equals(DEST) && !in.prog.isRepo(owner) && !owner.startsWith("java/util/") && !owner.equals("java/lang/String") && !owner.equals("java/lang/Object")) return destination(in, st, owner, name, desc, a, where);
    return null;
  }

  private static final Set<String> CHANGES = new HashSet<>(Arrays.asList("setLength", "insert", "delete", "deleteCharAt", "replace", "reverse", "setCharAt", "clear", "reset", "flip", "position", "rewind", "limit"));

  private List<Out> destination(Interp in, State st, String owner, String name, String desc, List<Val> a, String where) {
    List<Out> r = new ArrayList<>();
    if (name.equals("append") || name.equals("write")) {
      boolean safe = owner.equals(Models.SB) || owner.equals("java/lang/StringBuffer") || st.info(DEST).is.contains(Models.SB);
      if (!safe) {
        State bad = st.fork();
        Out e = in.raise(bad, "java/io/IOException", where);
        bad.events.add(new Event("IOERROR", Collections.singletonList(e.val), where));
        r.add(e);
      }
      String d = desc.substring(1, desc.indexOf(')'));
      List<Seg> t;
      if (d.equals("C") || d.equals("I") && name.equals("write")) t = Seg.of(Seg.run(Interp.lin(a.get(1)), Lin.ONE));
      else {
        t = in.models.textOf(st, a.get(1));
        if (t == null) throw new Undecided("destination gets " + a.get(1));
        if (a.size() == 4) {
          Lin from = Interp.lin(a.get(2)), to = name.equals("write") ? from.add(Interp.lin(a.get(3))) : Interp.lin(a.get(3));
          for (Out o : in.models.slice(st, t, from, to, false, "java/lang/IndexOutOfBoundsException", where)) {
            if (!o.thrown) {
              o.st.events.add(new Event("APPEND", Collections.singletonList(o.val), where));
              r.add(new Out(o.st, name.equals("write") ? null : DEST, false));
            } else r.add(o);
          }
          return r;
        }
        if (a.size() > 2) throw new Undecided("destination method " + name + desc);
      }
      st.events.add(new Event("APPEND", Collections.singletonList(new TextV(t, false)), where));
      r.add(new Out(st, name.equals("write") ? null : DEST, false));
      return r;
    }
    if (CHANGES.contains(name)) {
      st.events.add(new Event("CHANGE", Collections.singletonList(TextV.str(name)), where));
      return desc.endsWith(")V") ? Out.ret(st, null) : Out.ret(st, DEST);
    }
    if (name.equals("ensureCapacity") || name.equals("flush") || name.equals("trimToSize")) return Out.ret(st, null);
    throw new Undecided("destination method " + name);
  }

  static List<Seg> appended(State st) {
    List<Seg> t = Seg.lit("");
    for (Event e : st.events) if (e.kind.equals("APPEND")) t = Seg.concat(t, ((TextV) e.args.get(0)).segs);
    return t;
  }
}
