package fpv;

import java.util.*;
import java.util.function.Predicate;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;

/** Call graph by class hierarchy, with the bodies of lambdas counted as called where they are created. */
final class CallGraph {
  static final class Site {
    final Prog.M from;
    final AbstractInsnNode insn;
    final String owner, name, desc;
    final int line;
    final List<Prog.M> targets = new ArrayList<>();

    Site(Prog.M from, AbstractInsnNode insn, String owner, String name, String desc) {
      this.from = from;
      this.insn = insn;
      this.owner = owner;
      this.name = name;
      this.desc = desc;
      this.line = line(insn);
    }

    @Override
    public String toString() {
      return from + ":" + line + " -> " + owner.replace('/', '.') + "." + name;
    }
  }

  final Prog prog;
  final Map<Prog.M, List<Site>> sites = new LinkedHashMap<>();

  CallGraph(Prog prog) {
    this.prog = prog;
    for (ClassNode cn : prog.classes.values()) for (MethodNode mn : cn.methods) scan(prog.declared(cn.name, mn.name, mn.desc));
  }

  static int line(AbstractInsnNode n) {
    for (AbstractInsnNode p = n; p != null; p = p.getPrevious()) if (p instanceof LineNumberNode) return ((LineNumberNode) p).line;
    return 0;
  }

  private void scan(Prog.M m) {
    List<Site> r = new ArrayList<>();
    sites.put(m, r);
    for (AbstractInsnNode n = m.node.instructions.getFirst(); n != null; n = n.getNext()) {
      if (n instanceof MethodInsnNode) {
        MethodInsnNode c = (MethodInsnNode) n;
        Site s = new Site(m, n, c.owner, c.name, c.desc);
        r.add(s);
        s.targets.addAll(targets(c.getOpcode(), c.owner, c.name, c.desc));
        if (c.getOpcode() == Opcodes.INVOKESTATIC) init(m, n, c.owner, r);
      } else if (n instanceof InvokeDynamicInsnNode) {
        for (Object a : ((InvokeDynamicInsnNode) n).bsmArgs)
          if (a instanceof Handle) {
            Handle h = (Handle) a;
            Site s = new Site(m, n, h.getOwner(), h.getName(), h.getDesc());
            r.add(s);
            int op = h.getTag() == Opcodes.H_INVOKESTATIC ? Opcodes.INVOKESTATIC : h.getTag() == Opcodes.H_INVOKESPECIAL || h.getTag() == Opcodes.H_NEWINVOKESPECIAL ? Opcodes.INVOKESPECIAL : Opcodes.INVOKEVIRTUAL;
            s.targets.addAll(targets(op, h.getOwner(), h.getName(), h.getDesc()));
          }
      } else if (n instanceof FieldInsnNode && (n.getOpcode() == Opcodes.GETSTATIC || n.getOpcode() == Opcodes.PUTSTATIC)) init(m, n, ((FieldInsnNode) n).owner, r);
      else if (n.getOpcode() == Opcodes.NEW) init(m, n, ((TypeInsnNode) n).desc, r);
    }
  }

  private void init(Prog.M m, AbstractInsnNode n, String cls, List<Site> r) {
    if (cls.equals(m.cls.name)) return;
    Prog.M c = prog.declared(cls, "<clinit>", "()V");
    if (c == null) return;
    Site s = new Site(m, n, cls, "<clinit>", "()V");
    s.targets.add(c);
    r.add(s);
  }

  private Collection<Prog.M> targets(int op, String owner, String name, String desc) {
    Set<Prog.M> r = new LinkedHashSet<>();
    if (op == Opcodes.INVOKESTATIC || op == Opcodes.INVOKESPECIAL) {
      for (String c = owner; c != null && prog.isRepo(c); c = prog.classes.get(c).superName) {
        Prog.M t = prog.declared(c, name, desc);
        if (t != null) {
          r.add(t);
          break;
        }
      }
      return r;
    }
    for (String c : prog.implementors(owner)) {
      Prog.M t = prog.resolve(c, name, desc);
      if (t != null) r.add(t);
    }
    return r;
  }

  /** Methods reachable from the roots, breadth first, each with the site that reached it first. */
  Map<Prog.M, Site> reachable(Collection<Prog.M> roots, Predicate<Site> follow) {
    Map<Prog.M, Site> r = new LinkedHashMap<>();
    Deque<Prog.M> q = new ArrayDeque<>();
    for (Prog.M m : roots) if (!r.containsKey(m)) {
      r.put(m, null);
      q.add(m);
    }
    while (!q.isEmpty()) {
      for (Site s : sites.getOrDefault(q.poll(), Collections.emptyList())) {
        if (!follow.test(s)) continue;
        for (Prog.M t : s.targets) if (!r.containsKey(t)) {
          r.put(t, s);
          q.add(t);
        }
      }
    }
    return r;
  }

  static String path(Map<Prog.M, Site> from, Prog.M m) {
    StringBuilder sb = new StringBuilder("" + m);
    for (Site s = from.get(m); s != null; s = from.get(s.from)) sb.insert(0, s.from + ":" + s.line + " > ");
    return sb.toString();
  }

  /** Groups of methods that can call one another in a circle. */
  List<List<Prog.M>> cycles(Collection<Prog.M> among, Predicate<Site> follow) {
    Map<Prog.M, Integer> num = new HashMap<>(), low = new HashMap<>();
    List<List<Prog.M>> r = new ArrayList<>();
    Deque<Prog.M> stack = new ArrayDeque<>();
    Set<Prog.M> in = new HashSet<>(among);
    for (Prog.M m : among) if (!num.containsKey(m)) visit(m, in, follow, num, low, stack, r);
    return r;
  }

  private void visit(Prog.M m, Set<Prog.M> in, Predicate<Site> follow, Map<Prog.M, Integer> num, Map<Prog.M, Integer> low, Deque<Prog.M> stack, List<List<Prog.M>> r) {
    num.put(m, num.size());
    low.put(m, num.get(m));
    stack.push(m);
    boolean self = false;
    for (Site s : sites.getOrDefault(m, Collections.emptyList())) {
      if (!follow.test(s)) continue;
      for (Prog.M t : s.targets) {
        if (!in.contains(t)) continue;
        if (t == m) self = true;
        if (!num.containsKey(t)) {
          visit(t, in, follow, num, low, stack, r);
          low.put(m, Math.min(low.get(m), low.get(t)));
        } else if (stack.contains(t)) low.put(m, Math.min(low.get(m), num.get(t)));
      }
    }
    if (low.get(m).equals(num.get(m))) {
      List<Prog.M> c = new ArrayList<>();
      Prog.M t;
      do {
        t = stack.pop();
        c.add(t);
      } while (t != m);
      if (c.size() > 1 || self) r.add(c);
    }
  }
}
