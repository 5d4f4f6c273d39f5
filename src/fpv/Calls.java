package fpv;

import java.util.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;

/** Call graph of the program by class hierarchy; calls that can only lead to a throw are marked. */
final class Calls {
  /** One call, or one field access that can run a static initialiser. */
  static final class Site {
    final Prog.M in;
    final AbstractInsnNode insn;
    final int index, line;
    final boolean failing; // no return of the method can be reached from here
    final String owner, name, desc;

    Site(Prog.M in, AbstractInsnNode insn, int index, int line, boolean failing, String owner, String name, String desc) {
      this.in = in;
      this.insn = insn;
      this.index = index;
      this.line = line;
      this.failing = failing;
      this.owner = owner;
      this.name = name;
      this.desc = desc;
    }

    String where() {
      return in.cls.name + "." + in.node.name + ":" + line;
    }

    @Override
    public String toString() {
      return owner.replace('/', '.') + "." + name;
    }
  }

  final Prog prog;
  final Map<Prog.M, List<Site>> sites = new LinkedHashMap<>();
  int count;

  Calls(Prog prog) {
    this.prog = prog;
    for (Prog.M m : new TreeMap<>(prog.methods).values()) if (!m.isAbstract()) sites.put(m, scan(m));
  }

  private List<Site> scan(Prog.M m) {
    InsnList l = m.node.instructions;
    int n = l.size();
    boolean[] returns = new boolean[n];
    boolean more = true;
    while (more) {
      more = false;
      for (int i = n - 1; i >= 0; i--) {
        if (returns[i]) continue;
        AbstractInsnNode x = l.get(i);
        int op = x.getOpcode();
        boolean r = op >= Opcodes.IRETURN && op <= Opcodes.RETURN;
        if (!r)
          for (int s : next(l, i)) r |= s < n && returns[s];
        if (r) {
          returns[i] = true;
          more = true;
        }
      }
    }
    List<Site> r = new ArrayList<>();
    int line = 0;
    for (int i = 0; i < n; i++) {
      AbstractInsnNode x = l.get(i);
      if (x instanceof LineNumberNode) line = ((LineNumberNode) x).line;
      boolean failing = !returns[i];
      if (x instanceof MethodInsnNode) {
        MethodInsnNode c = (MethodInsnNode) x;
        r.add(new Site(m, x, i, line, failing, c.owner, c.name, c.desc));
      } else if (x instanceof InvokeDynamicInsnNode) {
        for (Object a : ((InvokeDynamicInsnNode) x).bsmArgs)
          if (a instanceof Handle) r.add(new Site(m, x, i, line, failing, ((Handle) a).getOwner(), ((Handle) a).getName(), ((Handle) a).getDesc()));
      } else if (x instanceof FieldInsnNode && (x.getOpcode() == Opcodes.GETSTATIC || x.getOpcode() == Opcodes.PUTSTATIC)) {
        FieldInsnNode c = (FieldInsnNode) x;
        r.add(new Site(m, x, i, line, failing, c.owner, c.name, c.desc));
      }
    }
    count += r.size();
    return r;
  }

  /** Normal successors of an instruction. */
  static int[] next(InsnList l, int i) {
    AbstractInsnNode x = l.get(i);
    int op = x.getOpcode();
    if (op == Opcodes.ATHROW || op >= Opcodes.IRETURN && op <= Opcodes.RETURN) return new int[0];
    if (x instanceof JumpInsnNode) {
      int t = l.indexOf(((JumpInsnNode) x).label);
      return op == Opcodes.GOTO ? new int[] {t} : new int[] {i + 1, t};
    }
    List<LabelNode> ls = null;
    LabelNode d = null;
    if (x instanceof TableSwitchInsnNode) {
      ls = ((TableSwitchInsnNode) x).labels;
      d = ((TableSwitchInsnNode) x).dflt;
    } else if (x instanceof LookupSwitchInsnNode) {
      ls = ((LookupSwitchInsnNode) x).labels;
      d = ((LookupSwitchInsnNode) x).dflt;
    }
    if (d == null) return new int[] {i + 1};
    int[] r = new int[ls.size() + 1];
    for (int k = 0; k < ls.size(); k++) r[k] = l.indexOf(ls.get(k));
    r[ls.size()] = l.indexOf(d);
    return r;
  }

  boolean isField(Site s) {
    return s.insn instanceof FieldInsnNode;
  }

  /** The program's methods a site may run. */
  List<Prog.M> targets(Site s) {
    List<Prog.M> r = new ArrayList<>();
    boolean stat = s.insn.getOpcode() == Opcodes.INVOKESTATIC || isField(s) || s.insn instanceof InvokeDynamicInsnNode || s.name.equals("<init>");
    if (stat && prog.isRepo(s.owner)) {
      Prog.M init = prog.declared(s.owner, "<clinit>", "()V");
      if (init != null) r.add(init);
    }
    if (isField(s)) return r;
    Prog.M d = prog.declared(s.owner, s.name, s.desc);
    if (d == null && prog.isRepo(s.owner)) d = prog.resolve(s.owner, s.name, s.desc);
    int op = s.insn.getOpcode();
    if (op == Opcodes.INVOKESTATIC || op == Opcodes.INVOKESPECIAL) {
      if (d != null) r.add(d);
      return r;
    }
    if (d != null && !d.isAbstract()) r.add(d);
    if (d != null && d.isStatic()) return r;
    for (String c : prog.implementors(s.owner.equals("java/lang/Object") ? "java/lang/CharSequence" : s.owner)) {
      Prog.M t = prog.resolve(c, s.name, s.desc);
      if (t != null && !r.contains(t)) r.add(t);
    }
    return r;
  }

  /** Methods reachable from the roots, with the call that reached them first; a null call marks a root. */
  Map<Prog.M, Site> reach(Collection<Prog.M> roots, java.util.function.Predicate<Site> follow, java.util.function.Predicate<Prog.M> enter) {
    Map<Prog.M, Site> r = new LinkedHashMap<>();
    Deque<Prog.M> q = new ArrayDeque<>();
    for (Prog.M m : roots)
      if (enter.test(m) && !r.containsKey(m)) {
        r.put(m, null);
        q.add(m);
      }
    while (!q.isEmpty()) {
      Prog.M m = q.poll();
      for (Site s : sites.getOrDefault(m, Collections.emptyList())) {
        if (!follow.test(s)) continue;
        for (Prog.M t : targets(s)) {
          if (r.containsKey(t) || !enter.test(t)) continue;
          r.put(t, s);
          q.add(t);
        }
      }
    }
    return r;
  }

  static String path(Map<Prog.M, Site> reached, Prog.M m) {
    LinkedList<String> l = new LinkedList<>();
    Prog.M k = m;
    for (int i = 0; i < 30 && reached.get(k) != null; i++) {
      l.addFirst(reached.get(k).where());
      k = reached.get(k).in;
    }
    l.addFirst(k.toString());
    return String.join(" > ", l);
  }
}
