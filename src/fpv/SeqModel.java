package fpv;

import java.util.*;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;

/**
 * The library's own sequence type read as a text algebra. Used when formatting code is analysed; that
 * the implementations obey this algebra is what the C16 and C17 rules decide.
 */
final class SeqModel {
  static final String SEQ = "io/fastprintf/seq/Seq";
  static final String IOOBE = "java/lang/IndexOutOfBoundsException";

  static List<Out> call(Models m, State st, int op, String owner, String name, String desc, List<Val> a, String where) {
    Interp in = m.in;
    if (op == Opcodes.INVOKESTATIC) {
      if (!owner.equals(SEQ)) return null;
      switch (name) {
        case "ch":
          return Out.ret(st, new TextV(Seg.of(Seg.run(Interp.lin(a.get(0)), Lin.ONE)), true));
        case "empty":
          return Out.ret(st, new TextV(Seg.lit(""), true));
        case "repeated":
          {
            Lin n = Interp.lin(a.get(1));
            List<Out> r = new ArrayList<>();
            if (!st.facts.entailsGe(n.add(-1))) {
              State bad = st.withGe(n.neg());
              if (bad != null) r.add(in.raise(bad, "java/lang/IllegalArgumentException", where));
              st = st.withGe(n.add(-1));
              if (st == null) return r;
            }
            r.add(new Out(st, new TextV(Seg.of(Seg.run(Interp.lin(a.get(0)), n)), true), false));
            return r;
          }
        case "wrap":
        case "forArray":
          {
            if (a.get(0) instanceof NullV) return Collections.singletonList(in.raise(st, "java/lang/NullPointerException", where));
            List<Seg> s = m.textOf(st, a.get(0));
            if (s == null) return null;
            T rt = in.refTerm(a.get(0));
            List<Out> r = new ArrayList<>();
            if (rt != null && in.nullness(st, a.get(0)) == 0) {
              State nul = st.fork();
              nul.refs.put(rt, nul.info(rt).isNull());
              r.add(in.raise(nul, "java/lang/NullPointerException", where));
              st.refs.put(rt, st.info(rt).nonNull());
            } else if (rt != null && in.nullness(st, a.get(0)) == 2) return Collections.singletonList(in.raise(st, "java/lang/NullPointerException", where));
            if (a.size() == 1) {
              r.add(new Out(st, new TextV(s, true), false));
              return r;
            }
            Lin from = Interp.lin(a.get(1));
            Lin to = a.size() == 2 ? Seg.len(s) : name.equals("wrap") ? Interp.lin(a.get(2)) : from.add(Interp.lin(a.get(2)));
            r.addAll(m.slice(st, s, from, to, true, IOOBE, where));
            return r;
          }
        case "concat":
          {
            List<Seg> x = m.textOf(st, a.get(0)), y = m.textOf(st, a.get(1));
            if (x == null || y == null) return null;
            return Out.ret(st, new TextV(Seg.concat(x, y), true));
          }
        case "join":
          {
            HObj h = in.obj(st, a.get(0));
            if (!Models.isList(h) || h.list().contains(Models.REST)) throw new Undecided("Seq.join");
            List<Seg> s = Seg.lit("");
            for (Val v : h.list()) {
              List<Seg> x = m.textOf(st, v);
              if (x == null) throw new Undecided("Seq.join element");
              s = Seg.concat(s, x);
            }
            return Out.ret(st, new TextV(s, true));
          }
        case "lazy":
          {
            Val sb = st.alloc(m.fresh(Models.SB));
            List<Out> r = new ArrayList<>();
            Lin n = Interp.lin(a.get(1));
            for (Out o : in.invoke(st, Opcodes.INVOKEINTERFACE, "java/util/function/Consumer", "accept", "(Ljava/lang/Object;)V", Arrays.asList(a.get(0), sb), where)) {
              if (o.thrown) r.add(o);
              else {
                List<Seg> t = in.obj(o.st, sb).text();
                if (m.lazyListener != null) m.lazyListener.lazy(o.st, n, t, where);
                r.add(new Out(o.st, new TextV(t, true), false));
              }
            }
            return r;
          }
        default:
          return null;
      }
    }
    if (op == Opcodes.INVOKESPECIAL || a.isEmpty() || !(a.get(0) instanceof TextV) || !((TextV) a.get(0)).seq) return null;
    List<Seg> s = ((TextV) a.get(0)).segs;
    switch (name) {
      case "append":
      case "prepend":
        {
          List<Seg> x = m.textOf(st, a.get(1));
          if (x == null) return null;
          return Out.ret(st, new TextV(name.equals("append") ? Seg.concat(s, x) : Seg.concat(x, s), true));
        }
      case "subSequence":
        return m.slice(st, s, Interp.lin(a.get(1)), Interp.lin(a.get(2)), true, IOOBE, where);
      case "charAt":
        return m.charAtChecked(st, s, Interp.lin(a.get(1)), IOOBE, where);
      case "upperCase":
        return Out.ret(st, new TextV(Seg.upper(s), true));
      case "dup":
        return Out.ret(st, a.get(0));
      case "map":
        {
          List<Val> x = new ArrayList<>();
          x.add(a.get(1));
          x.add(a.get(0));
          return in.invoke(st, Opcodes.INVOKEINTERFACE, "java/util/function/Function", "apply", "(Ljava/lang/Object;)Ljava/lang/Object;", x, where);
        }
      case "startsWith":
        {
          if (!desc.equals("(C)Z")) return null;
          Lin len = Seg.len(s);
          List<Out> r = new ArrayList<>();
          State e = st.withEq(len);
          if (e != null) r.add(new Out(e, Lin.ZERO, false));
          State ne = st.withGe(len.add(-1));
          if (ne != null)
            for (Out c : m.charAt(ne, s, Lin.ZERO)) r.addAll(m.boolSplit(c.st, ((Lin) c.val).sub(Interp.lin(a.get(1)))));
          return r;
        }
      case "appendTo":
        {
          Val dst = a.get(1);
          HObj h = in.obj(st, dst);
          if (dst instanceof T) return stripValue(in.invoke(st, Opcodes.INVOKEINTERFACE, "java/lang/Appendable", "append", "(Ljava/lang/CharSequence;)Ljava/lang/Appendable;", Arrays.asList(dst, a.get(0)), where));
          if (h == null || !Models.isText(h)) return null;
          return stripValue(in.invoke(st, Opcodes.INVOKEINTERFACE, h.cls.equals(Models.SB) ? Models.SB : "java/lang/Appendable", "append", "(Ljava/lang/CharSequence;)Ljava/lang/Appendable;", Arrays.asList(dst, a.get(0)), where));
        }
      case "elementCount":
        return Out.ret(st, Lin.of(T.of("?elementCount", "I", new TextV(s, true))));
      case "isAtomic":
        return Out.ret(st, Lin.of(T.of("?isAtomic", "Z", new TextV(s, true))));
      case "equals":
      case "hashCode":
        return null;
      default:
        return m.text(st, a.get(0), s, name, desc, a, where);
    }
  }

  private static List<Out> stripValue(List<Out> l) {
    List<Out> r = new ArrayList<>();
    for (Out o : l) r.add(o.thrown ? o : new Out(o.st, null, false));
    return r;
  }

  private SeqModel() {}
}
