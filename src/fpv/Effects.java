package fpv;

import java.util.*;
import java.util.function.Supplier;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;

/**
 * Points-to and write-effect analysis of the whole program: inclusion based, field sensitive, flow sensitive in locals,
 * with call strings for methods and allocations. Objects are told apart by the phase of the program that makes them:
 * static initialisation, compiling a formatter, building arguments, or a formatting call.
 */
final class Effects {
  enum Phase {
    STATIC("made by a static initialiser"),
    SETUP("part of a compiled formatter"),
    ARGS("part of an argument list or an argument"),
    USER("an argument object"),
    DEST("the destination"),
    FORMAT("made by the call");

    final String what;

    Phase(String what) {
      this.what = what;
    }
  }

  /** An abstract object. */
  static final class Node {
    final Phase phase;
    final String cls, site;
    Handle impl; // of a lambda
    String sam;
    int captures;
    final Map<String, Set<Node>> fields = new HashMap<>();

    Node(Phase phase, String cls, String site) {
      this.phase = phase;
      this.cls = cls;
      this.site = site;
    }

    @Override
    public String toString() {
      return (cls == null ? "object" : org.objectweb.asm.Type.getObjectType(cls).getClassName()) + (site.isEmpty() ? "" : " from " + site) + " (" + phase.what + ")";
    }
  }

  /** A value: what it may point to, the parameters it is computed from, the field it was loaded from. */
  private static final class V {
    static final V NONE = new V(Collections.emptySet(), 0, null);
    final Set<Node> to;
    final long deps;
    final String src;

    V(Set<Node> to, long deps, String src) {
      this.to = to;
      this.deps = deps;
      this.src = src;
    }

    static V of(Set<Node> to) {
      return to.isEmpty() ? NONE : new V(to, 0, null);
    }

    V join(V o) {
      if (this == o) return this;
      Set<Node> t = to;
      if (!to.containsAll(o.to)) {
        t = new LinkedHashSet<>(to);
        t.addAll(o.to);
      }
      String s = Objects.equals(src, o.src) ? src : null;
      if (t == to && (deps | o.deps) == deps && Objects.equals(s, src)) return this;
      return new V(t, deps | o.deps, s);
    }

    V free() {
      return new V(to, deps, null);
    }
  }

  private static final class Frame {
    final V[] locals;
    final ArrayList<V> stack;
    Set<String> arrays = Collections.emptySet(); // sources whose value is known to be an array

    Frame(V[] locals, ArrayList<V> stack) {
      this.locals = locals;
      this.stack = stack;
    }

    Frame copy() {
      Frame f = new Frame(locals.clone(), new ArrayList<>(stack));
      f.arrays = arrays;
      return f;
    }

    void know(String source) {
      arrays = new HashSet<>(arrays);
      arrays.add(source);
    }

    V pop() {
      return stack.remove(stack.size() - 1);
    }

    void pop(int n) {
      for (int i = 0; i < n; i++) pop();
    }

    V peek(int depth) {
      return stack.get(stack.size() - 1 - depth);
    }

    void push(V v) {
      stack.add(v);
    }

    void none(int n) {
      for (int i = 0; i < n; i++) stack.add(V.NONE);
    }

    void push(V v, Type t) {
      if (t.getSize() > 0) stack.add(v);
      if (t.getSize() > 1) stack.add(V.NONE);
    }

    boolean join(Frame o) {
      boolean ch = false;
      if (!o.arrays.containsAll(arrays)) {
        arrays = new HashSet<>(arrays);
        arrays.retainAll(o.arrays);
        ch = true;
      }
      for (int i = 0; i < locals.length; i++) {
        V j = locals[i] == null || o.locals[i] == null ? null : locals[i].join(o.locals[i]);
        if (j != locals[i]) {
          locals[i] = j;
          ch = true;
        }
      }
      for (int i = 0; i < stack.size() && i < o.stack.size(); i++) {
        V j = stack.get(i).join(o.stack.get(i));
        if (j != stack.get(i)) {
          stack.set(i, j);
          ch = true;
        }
      }
      return ch;
    }
  }

  /** A method in a calling context. */
  static final class Inst {
    final Prog.M m;
    final Phase phase;
    final List<String> ctx;
    final boolean locked;
    final List<Set<Node>> params = new ArrayList<>();
    final Set<Node> ret = new LinkedHashSet<>();
    long retDeps; // parameters the result is computed from
    boolean called;

    Inst(Prog.M m, Phase phase, List<String> ctx, boolean locked) {
      this.m = m;
      this.phase = phase;
      this.ctx = ctx;
      this.locked = locked;
    }

    String path() {
      return ctx.isEmpty() ? "the entry point " + m : String.join(" > ", ctx) + " > " + m;
    }
  }

  static final class Write {
    final Inst in;
    final int index;
    final String what, where;
    final Set<Node> to;
    final String cache; // why the write is a repeatable cache fill, or null

    Write(Inst in, int index, String what, String where, Set<Node> to, String cache) {
      this.in = in;
      this.index = index;
      this.what = what;
      this.where = where;
      this.to = to;
      this.cache = cache;
    }
  }

  static final int DEPTH = 5;

  final Prog prog;
  final Map<String, Inst> insts = new LinkedHashMap<>();
  final Map<String, Node> nodes = new LinkedHashMap<>();
  final Map<String, Set<Node>> statics = new HashMap<>();
  final List<Write> writes = new ArrayList<>();
  final Node dest = new Node(Phase.DEST, null, ""), user = new Node(Phase.USER, null, ""), array = new Node(Phase.USER, null, "");
  final Set<Node> anyArgument = new LinkedHashSet<>(Collections.singleton(user));
  final List<Prog.M> roots = new ArrayList<>();
  int rounds;
  private boolean changed, collecting;

  Effects(Prog prog) {
    this.prog = prog;
  }

  // ---- the program as its users drive it --------------------------------------------------------

  void solve() {
    do {
      changed = false;
      rounds++;
      round();
    } while (changed && rounds < 200);
    collecting = true;
    writes.clear();
    round();
  }

  private Set<Node> given(Type t, Set<Node> lists) {
    if (t.getSort() < Type.ARRAY) return Collections.emptySet();
    String d = t.getDescriptor();
    String c = t.getSort() == Type.OBJECT ? t.getInternalName() : d;
    if (c.equals(Spec.P + "Args")) return lists;
    if (immutable(c)) return Collections.emptySet();
    if (c.equals("java/lang/Appendable") || c.equals("java/lang/StringBuilder") || c.startsWith("java/io/")) return Collections.singleton(dest);
    if (t.getSort() == Type.ARRAY) {
      Node n = node(Phase.USER, d, "a parameter");
      if (t.getElementType().getSort() == Type.OBJECT && t.getDimensions() == 1) store(n, "[]", given(t.getElementType(), lists));
      return Collections.singleton(n);
    }
    return filter(anyArgument, c);
  }

  private void round() {
    String api = Spec.P + "FastPrintf", args = Spec.P + "Args", seq = Spec.P + "seq/Seq";
    for (Prog.M m : new TreeMap<>(prog.methods).values()) if (m.node.name.equals("<clinit>")) root(m, Phase.STATIC, Collections.emptyList());
    Set<Node> formatters = new LinkedHashSet<>(), lists = new LinkedHashSet<>(), seqs = new LinkedHashSet<>();
    for (Node n : nodes.values()) {
      if (n.cls == null || n.impl != null) continue;
      if (n.phase == Phase.SETUP && prog.isRepo(n.cls) && prog.isSub(n.cls, api)) formatters.add(n);
      if (n.phase == Phase.ARGS && prog.isRepo(n.cls) && prog.isSub(n.cls, args)) lists.add(n);
      if ((n.phase == Phase.ARGS || n.phase == Phase.STATIC) && prog.isRepo(n.cls) && prog.isSub(n.cls, seq)) seqs.add(n);
    }
    for (Node n : seqs) changed |= anyArgument.add(n);
    roots.clear();
    drive(api, Phase.SETUP, formatters, lists, m -> Type.getReturnType(m.node.desc).getDescriptor().equals("L" + api + ";"));
    drive(args, Phase.ARGS, lists, lists, m -> m.isStatic() || Type.getArgumentTypes(m.node.desc).length > 0 || Type.getReturnType(m.node.desc).getDescriptor().equals("L" + args + ";"));
    drive(seq, Phase.ARGS, seqs, lists, m -> Type.getReturnType(m.node.desc).getSort() == Type.OBJECT && !m.node.name.equals("toString"));
    drive(api, Phase.FORMAT, formatters, lists, m -> !m.isStatic() && !Type.getReturnType(m.node.desc).getDescriptor().equals("L" + api + ";") && !m.node.name.equals("toString"));
    for (int i = 0; i < 30; i++) {
      boolean before = changed;
      changed = false;
      for (Inst x : new ArrayList<>(insts.values())) if (x.called) run(x);
      boolean more = changed;
      changed |= before;
      if (!more) break;
    }
  }

  private void drive(String cls, Phase phase, Set<Node> receivers, Set<Node> lists, java.util.function.Predicate<Prog.M> which) {
    ClassNode cn = prog.classes.get(cls);
    if (cn == null) throw new AnchorMissing(cls);
    for (MethodNode mn : cn.methods) {
      Prog.M m = prog.declared(cls, mn.name, mn.desc);
      if (mn.name.startsWith("lambda$") || mn.name.startsWith("<") || (mn.access & Opcodes.ACC_PRIVATE) != 0 || !which.test(m)) continue;
      List<Set<Node>> a = new ArrayList<>();
      for (Type t : Type.getArgumentTypes(mn.desc)) a.add(given(t, lists));
      if (phase == Phase.FORMAT) roots.add(m);
      if (m.isStatic()) root(m, phase, a);
      else
        for (Node n : receivers) {
          Prog.M t = prog.resolve(n.cls, mn.name, mn.desc);
          if (t == null) continue;
          List<Set<Node>> b = new ArrayList<>();
          b.add(Collections.singleton(n));
          b.addAll(a);
          root(t, phase, b);
        }
    }
  }

  private void root(Prog.M m, Phase phase, List<Set<Node>> a) {
    invoke(m, phase, Collections.emptyList(), false, a);
  }

  // ---- heap ------------------------------------------------------------------------------------

  private Node node(Phase phase, String cls, String site) {
    return nodes.computeIfAbsent(phase + "|" + cls + "|" + site, k -> {
      changed = true;
      return new Node(phase, cls, site);
    });
  }

  private void store(Node n, String field, Collection<Node> what) {
    if (what.isEmpty()) return;
    if (n.fields.computeIfAbsent(field, k -> new LinkedHashSet<>()).addAll(what)) changed = true;
  }

  private Set<Node> load(Set<Node> base, String field) {
    Set<Node> r = new LinkedHashSet<>();
    for (Node n : base) {
      Set<Node> s = n.fields.get(field);
      if (s != null) r.addAll(s);
    }
    return r;
  }

  /** What a collection, array, view or holder contains. */
  private Set<Node> elements(Set<Node> base) {
    Set<Node> r = new LinkedHashSet<>(), seen = new HashSet<>();
    Deque<Node> q = new ArrayDeque<>(base);
    while (!q.isEmpty()) {
      Node n = q.poll();
      if (!seen.add(n)) continue;
      if (n == user || n == array) r.add(user);
      r.addAll(n.fields.getOrDefault("$elem", Collections.emptySet()));
      r.addAll(n.fields.getOrDefault("[]", Collections.emptySet()));
      q.addAll(n.fields.getOrDefault("$back", Collections.emptySet()));
    }
    return r;
  }

  private Set<Node> backed(Set<Node> base) {
    Set<Node> r = new LinkedHashSet<>();
    Deque<Node> q = new ArrayDeque<>(base);
    while (!q.isEmpty()) {
      Node n = q.poll();
      if (r.add(n)) q.addAll(n.fields.getOrDefault("$back", Collections.emptySet()));
    }
    return r;
  }

  private Set<Node> filter(Set<Node> s, String cls) {
    Set<Node> r = new LinkedHashSet<>();
    for (Node n : s) {
      if (n == array) {
        if (cls.startsWith("[") || cls.equals("java/lang/Object") || cls.equals("java/lang/Cloneable") || cls.equals("java/io/Serializable")) r.add(n);
      } else if (n == user ? !immutable(cls) && !prog.isRepo(cls) : n.cls == null || n.impl != null || prog.isSub(n.cls, cls) || !prog.isRepo(n.cls) && !n.cls.startsWith("[")) r.add(n);
    }
    return r;
  }

  static boolean immutable(String c) {
    if (c.startsWith("[")) return false;
    if (c.startsWith("java/time/") || c.startsWith("java/lang/invoke/")) return true;
    switch (c) {
      case "java/lang/String":
      case "java/lang/Integer":
      case "java/lang/Long":
      case "java/lang/Short":
      case "java/lang/Byte":
      case "java/lang/Character":
      case "java/lang/Boolean":
      case "java/lang/Float":
      case "java/lang/Double":
      case "java/lang/Class":
      case "java/math/BigInteger":
      case "java/math/BigDecimal":
      case "java/math/MathContext":
      case "java/math/RoundingMode":
      case "java/util/Locale":
      case "java/nio/charset/Charset":
      case "java/util/regex/Pattern":
        return true;
      default:
        return false;
    }
  }

  // ---- calls -----------------------------------------------------------------------------------

  private Inst invoke(Prog.M m, Phase phase, List<String> ctx, boolean locked, List<Set<Node>> a) {
    String key = m.id() + "|" + phase + "|" + locked + "|" + ctx;
    Inst x = insts.get(key);
    if (x == null) {
      insts.put(key, x = new Inst(m, phase, ctx, locked));
      changed = true;
    }
    while (x.params.size() < a.size()) x.params.add(new LinkedHashSet<>());
    for (int i = 0; i < a.size(); i++) if (x.params.get(i).addAll(a.get(i))) changed = true;
    if (!x.called) {
      x.called = true;
      changed = true;
    }
    return x;
  }

  private List<String> extend(Inst x, String site) {
    List<String> r = new ArrayList<>(x.ctx);
    r.add(site);
    while (r.size() > DEPTH) r.remove(0);
    return r;
  }

  private static long deps(List<V> a) {
    long d = 0;
    for (V v : a) d |= v.deps;
    return d;
  }

  /** Calls a method of the program; the result depends on the arguments it depends on. */
  private V enter(Inst x, String site, Prog.M m, List<V> a) {
    boolean locked = x.locked || (m.node.access & Opcodes.ACC_SYNCHRONIZED) != 0;
    List<Set<Node>> p = new ArrayList<>();
    for (V v : a) p.add(v.to);
    Inst t = invoke(m, x.phase, extend(x, site), locked, p);
    long d = 0;
    for (int i = 0; i < a.size() && i < 60; i++) if ((t.retDeps & 1L << i) != 0) d |= a.get(i).deps;
    return new V(new LinkedHashSet<>(t.ret), d, null);
  }

  /** Calls a lambda or method reference. */
  private V lambda(Inst x, String site, Node l, List<V> given) {
    List<V> a = new ArrayList<>();
    for (int i = 0; i < l.captures; i++) a.add(V.of(load(Collections.singleton(l), "$c" + i)));
    a.addAll(given);
    Handle h = l.impl;
    String s = site + " > lambda";
    if (h.getTag() == Opcodes.H_NEWINVOKESPECIAL) {
      Node n = node(x.phase, h.getOwner(), h.getName().equals("<init>") ? at(l.site, x) : s);
      a.add(0, V.of(Collections.singleton(n)));
      call(x, s, Opcodes.INVOKESPECIAL, h.getOwner(), "<init>", h.getDesc(), fit(a, h.getDesc(), true));
      return V.of(Collections.singleton(n));
    }
    boolean st = h.getTag() == Opcodes.H_INVOKESTATIC;
    int op = st ? Opcodes.INVOKESTATIC : h.getTag() == Opcodes.H_INVOKESPECIAL ? Opcodes.INVOKESPECIAL : h.isInterface() ? Opcodes.INVOKEINTERFACE : Opcodes.INVOKEVIRTUAL;
    return call(x, s, op, h.getOwner(), h.getName(), h.getDesc(), fit(a, h.getDesc(), !st));
  }

  private static List<V> fit(List<V> a, String desc, boolean receiver) {
    int n = Type.getArgumentTypes(desc).length + (receiver ? 1 : 0);
    List<V> r = new ArrayList<>(a.subList(0, Math.min(n, a.size())));
    while (r.size() < n) r.add(V.NONE);
    return r;
  }

  private static String at(String site, Inst x) {
    return site + " " + x.ctx;
  }

  private V call(Inst x, String site, int op, String owner, String name, String desc, List<V> a) {
    V r = new V(Collections.emptySet(), 0, null);
    if (op == Opcodes.INVOKESTATIC || op == Opcodes.INVOKESPECIAL) {
      Prog.M m = prog.declared(owner, name, desc);
      if (m == null && prog.isRepo(owner)) m = prog.resolve(owner, name, desc);
      if (m != null) return m.isAbstract() ? V.NONE : enter(x, site, m, a);
      return library(x, site, op, owner, name, desc, a);
    }
    Map<Prog.M, Set<Node>> targets = new LinkedHashMap<>();
    Set<Node> other = new LinkedHashSet<>();
    for (Node n : a.get(0).to) {
      if (n.impl != null && (n.sam.equals(name) || !prog.isRepo(owner) && !name.equals("andThen") && !name.equals("compose"))) {
        if (n.sam.equals(name)) r = r.join(lambda(x, site, n, a.subList(1, a.size())));
        continue;
      }
      Prog.M m = n.cls == null || !prog.isRepo(n.cls) ? (n.impl != null ? prog.declared(owner, name, desc) : null) : prog.resolve(n.cls, name, desc);
      if (m == null || m.isAbstract()) other.add(n);
      else targets.computeIfAbsent(m, k -> new LinkedHashSet<>()).add(n);
    }
    for (Map.Entry<Prog.M, Set<Node>> e : targets.entrySet()) {
      List<V> b = new ArrayList<>(a);
      b.set(0, new V(e.getValue(), a.get(0).deps, null));
      r = r.join(enter(x, site, e.getKey(), b));
    }
    if (!other.isEmpty() || targets.isEmpty() && r.to.isEmpty()) {
      List<V> b = new ArrayList<>(a);
      b.set(0, new V(other, a.get(0).deps, null));
      r = r.join(library(x, site, op, owner, name, desc, b));
    }
    return r;
  }

  /** A method of the platform. */
  private V library(Inst x, String site, int op, String owner, String name, String desc, List<V> a) {
    long d = deps(a);
    Type rt = Type.getReturnType(desc);
    boolean st = op == Opcodes.INVOKESTATIC;
    for (int i : mutated(owner, name, desc, st)) {
      if (i >= a.size()) continue;
      Set<Node> to = name.startsWith("next") ? a.get(i).to : backed(a.get(i).to);
      write(x, owner.substring(owner.lastIndexOf('/') + 1) + "." + name, site, to);
      if (owner.startsWith("java/util/") || owner.equals("java/lang/reflect/Array"))
        for (int k = 0; k < a.size(); k++)
          if (k != i)
            for (Node n : to) {
              store(n, "$elem", a.get(k).to);
              if (name.endsWith("All")) store(n, "$elem", elements(a.get(k).to));
            }
      if (owner.equals("java/lang/System")) for (Node n : to) store(n, "[]", load(a.get(0).to, "[]"));
    }
    if (owner.equals("java/lang/ThreadLocal") || !st && !a.isEmpty() && a.get(0).to.stream().anyMatch(n -> n.cls != null && prog.isRepo(n.cls) && prog.isSub(n.cls, "java/lang/ThreadLocal"))) return threadLocal(x, site, name, a);
    if (owner.startsWith("java/util/concurrent/") && !name.startsWith("get")) for (Node n : a.isEmpty() ? Collections.<Node>emptySet() : a.get(0).to) for (int k = 1; k < a.size(); k++) store(n, "$elem", a.get(k).to);
    Set<Node> r = new LinkedHashSet<>();
    // functions handed to the platform are called with what the receiver and the other arguments contain
    for (int i = st ? 0 : 1; i < a.size(); i++)
      for (Node n : a.get(i).to)
        if (n.impl != null) {
          Set<Node> in = new LinkedHashSet<>();
          for (V v : a) {
            in.addAll(elements(v.to));
            for (Node k : v.to) if (k.impl == null && k.cls != null && !k.cls.startsWith("java/util/")) in.add(k);
          }
          List<V> g = new ArrayList<>();
          for (int k = 0; k < 3; k++) g.add(new V(in, d, null));
          V out = lambda(x, site, n, g);
          r.addAll(out.to);
          d |= out.deps;
          if (!st && name.startsWith("compute")) for (Node k : a.get(0).to) store(k, "$elem", out.to);
        }
    if (name.equals("<init>")) {
      for (Node n : a.get(0).to)
        for (int k = 1; k < a.size(); k++) {
          if (!owner.startsWith("java/util/") && !owner.startsWith("java/lang/ref/")) continue;
          store(n, "$elem", elements(a.get(k).to));
          if (!Type.getArgumentTypes(desc)[k - 1].getDescriptor().equals("Ljava/util/Collection;")) store(n, "$elem", a.get(k).to);
        }
      return V.NONE;
    }
    if (rt.getSort() < Type.ARRAY) return new V(Collections.emptySet(), d, null);
    String rc = rt.getSort() == Type.OBJECT ? rt.getInternalName() : rt.getDescriptor();
    if (immutable(rc)) return new V(Collections.emptySet(), d, null);
    String fresh = at(site, x);
    if (st) {
      switch (owner + "." + name) {
        case "java/util/Objects.requireNonNull":
        case "java/util/Objects.requireNonNullElse":
        case "java/util/Optional.of":
          return a.get(0).free();
        case "java/lang/reflect/Array.get":
          return new V(union(r, elements(a.get(0).to)), d, null);
        default:
      }
      Node n = node(x.phase, rc, fresh);
      boolean view = owner.equals("java/util/Arrays") && name.equals("asList") || owner.equals("java/util/Collections") || name.equals("wrap");
      for (V v : a) {
        if (view) store(n, "$back", v.to);
        else {
          store(n, rc.startsWith("[") ? "[]" : "$elem", elements(v.to));
          if (owner.startsWith("java/util/") && !owner.equals("java/util/Arrays")) store(n, "$elem", v.to);
        }
      }
      r.add(n);
      return new V(r, d, null);
    }
    V recv = a.get(0);
    if (isBuilder(owner) || owner.equals("java/lang/Appendable")) return new V(recv.to, d, null);
    if (name.equals("clone")) {
      Node n = node(x.phase, rc, fresh);
      for (Node b : recv.to) {
        store(n, "[]", load(Collections.singleton(b), "[]"));
        store(n, "$elem", load(Collections.singleton(b), "$elem"));
      }
      if (recv.to.contains(user) || recv.to.contains(array)) store(n, "[]", Collections.singleton(user));
      return new V(Collections.singleton(n), d, null);
    }
    switch (name) {
      case "iterator":
      case "listIterator":
      case "spliterator":
      case "stream":
      case "entrySet":
      case "keySet":
      case "values":
      case "subList":
      case "descendingIterator":
      case "enumeration":
      case "elements":
        {
          Node n = node(x.phase, rc, fresh);
          store(n, "$back", recv.to);
          r.add(n);
          return new V(r, d, null);
        }
      case "toArray":
      case "collect":
        {
          Node n = node(x.phase, rc, fresh);
          store(n, rc.startsWith("[") ? "[]" : "$elem", elements(recv.to));
          r.add(n);
          if (a.size() > 1 && rc.startsWith("[")) {
            r.addAll(a.get(1).to);
            for (Node t : a.get(1).to) store(t, "[]", elements(recv.to));
          }
          return new V(r, d, null);
        }
      default:
    }
    r.addAll(elements(recv.to));
    if (recv.to.stream().allMatch(n -> n == user) && !owner.startsWith("java/util/") || r.isEmpty()) r.add(node(x.phase, rc, fresh));
    return new V(r, d, null);
  }

  private static Set<Node> union(Set<Node> a, Set<Node> b) {
    Set<Node> r = new LinkedHashSet<>(a);
    r.addAll(b);
    return r;
  }

  /** Values of a thread: what was set, and what the initialiser makes. */
  private V threadLocal(Inst x, String site, String name, List<V> a) {
    switch (name) {
      case "withInitial":
        {
          Node n = node(x.phase, "java/lang/ThreadLocal", at(site, x));
          store(n, "$init", a.get(0).to);
          return V.of(Collections.singleton(n));
        }
      case "set":
        for (Node n : a.get(0).to) store(n, "$elem", a.get(1).to);
        return V.NONE;
      case "get":
        {
          Set<Node> r = new LinkedHashSet<>(load(a.get(0).to, "$elem"));
          for (Node n : load(a.get(0).to, "$init")) if (n.impl != null) r.addAll(lambda(x, site, n, Collections.emptyList()).to);
          for (Node n : a.get(0).to) {
            if (n.cls == null || !prog.isRepo(n.cls)) continue;
            for (String desc : new String[] {"()Ljava/lang/Object;"}) {
              Prog.M m = prog.resolve(n.cls, "initialValue", desc);
              if (m != null) r.addAll(enter(x, site, m, Collections.singletonList(V.of(Collections.singleton(n)))).to);
            }
          }
          return V.of(r);
        }
      default:
        return V.NONE;
    }
  }

  private static boolean isBuilder(String owner) {
    return owner.equals("java/lang/StringBuilder") || owner.equals("java/lang/StringBuffer") || owner.equals("java/lang/AbstractStringBuilder");
  }

  /** Which arguments a method of the platform changes. */
  private static int[] mutated(String owner, String name, String desc, boolean st) {
    int[] no = {}, self = {0};
    if (name.equals("<init>")) return no;
    if (st) {
      if (owner.equals("java/lang/System") && name.equals("arraycopy")) return new int[] {2};
      if (owner.equals("java/util/Arrays") && (name.equals("sort") || name.equals("fill") || name.equals("setAll") || name.startsWith("parallel"))) return self;
      if (owner.equals("java/util/Collections") && (name.equals("sort") || name.equals("reverse") || name.equals("shuffle") || name.equals("swap") || name.equals("fill") || name.equals("copy") || name.equals("rotate") || name.equals("addAll") || name.equals("replaceAll"))) return self;
      if (owner.equals("java/lang/reflect/Array") && name.startsWith("set")) return self;
      return no;
    }
    if (owner.startsWith("java/util/concurrent/")) return no;
    if (owner.startsWith("java/util/function/")) return no;
    if (name.equals("getChars") && desc.startsWith("(II[CI")) return new int[] {3};
    if (name.equals("toArray") && desc.startsWith("([")) return new int[] {1};
    if (isBuilder(owner) || owner.equals("java/lang/Appendable")) {
      switch (name) {
        case "append":
        case "appendCodePoint":
        case "insert":
        case "delete":
        case "deleteCharAt":
        case "replace":
        case "reverse":
        case "setLength":
        case "setCharAt":
          return self;
        default:
          return no;
      }
    }
    if (owner.startsWith("java/nio/") && owner.endsWith("Buffer")) {
      if (name.equals("get") || name.equals("put") || name.equals("position") && desc.startsWith("(I)") || name.equals("limit") && desc.startsWith("(I)")) return desc.startsWith("(I)") && name.equals("get") ? no : self;
      return name.equals("flip") || name.equals("rewind") || name.equals("clear") || name.equals("compact") || name.equals("append") || name.equals("read") || name.equals("reset") || name.equals("mark") ? self : no;
    }
    if (owner.startsWith("java/text/")) return name.equals("format") || name.equals("parse") || name.startsWith("set") || name.startsWith("apply") ? self : no;
    if (owner.equals("java/util/regex/Matcher")) return name.equals("find") || name.equals("matches") || name.equals("lookingAt") || name.startsWith("reset") || name.equals("region") || name.equals("usePattern") ? self : no;
    if (owner.startsWith("java/io/") || owner.equals("java/lang/Readable")) return name.startsWith("write") || name.startsWith("read") || name.startsWith("append") || name.startsWith("print") || name.equals("reset") || name.equals("skip") ? self : no;
    if (owner.equals("java/security/MessageDigest") || owner.startsWith("java/util/zip/")) return name.startsWith("update") || name.equals("digest") || name.equals("reset") ? self : no;
    if (owner.startsWith("java/util/stream/") || owner.startsWith("java/util/Base64")) return no;
    if (owner.startsWith("java/util/") || owner.equals("java/lang/ThreadGroup") || owner.startsWith("java/sql/")) {
      if (name.equals("set") || name.startsWith("set") && name.length() > 3 && Character.isUpperCase(name.charAt(3))) return self;
      for (String p : new String[] {"add", "put", "remove", "clear", "push", "pop", "poll", "offer", "retain", "sort", "next", "insert", "replace", "compute", "merge", "roll", "flip", "and", "or", "xor", "nextElement", "drain", "forEachRemaining"})
        if (name.startsWith(p) && !name.equals("order")) return self;
      if (owner.equals("java/util/Formatter") && name.equals("format")) return self;
    }
    return no;
  }

  // ---- one method ------------------------------------------------------------------------------

  private void write(Inst x, String what, String site, Set<Node> to) {
    if (collecting && !to.isEmpty()) writes.add(new Write(x, -1, what, site, to, null));
  }

  private final Map<Prog.M, int[]> lines = new HashMap<>();

  private int line(Prog.M m, int i) {
    int[] l = lines.computeIfAbsent(m, k -> {
      int[] r = new int[k.node.instructions.size()];
      int c = 0;
      for (int j = 0; j < r.length; j++) {
        AbstractInsnNode n = k.node.instructions.get(j);
        if (n instanceof LineNumberNode) c = ((LineNumberNode) n).line;
        r[j] = c;
      }
      return r;
    });
    return l[i];
  }

  private void run(Inst x) {
    MethodNode mn = x.m.node;
    InsnList l = mn.instructions;
    int n = l.size();
    if (n == 0) return;
    boolean sync = x.locked;
    for (int i = 0; i < n; i++) sync |= l.get(i).getOpcode() == Opcodes.MONITORENTER;
    Inst self = sync == x.locked ? x : new Inst(x.m, x.phase, x.ctx, true);
    Frame[] at = new Frame[n];
    Frame f = new Frame(new V[mn.maxLocals], new ArrayList<>());
    int slot = 0, p = 0;
    if (!x.m.isStatic()) {
      f.locals[slot++] = new V(param(x, p), 1L << p, null);
      p++;
    }
    for (Type t : Type.getArgumentTypes(mn.desc)) {
      f.locals[slot] = new V(param(x, p), p < 60 ? 1L << p : 0, null);
      slot += t.getSize();
      p++;
    }
    Map<Integer, List<TryCatchBlockNode>> handlers = new HashMap<>();
    if (mn.tryCatchBlocks != null)
      for (TryCatchBlockNode b : mn.tryCatchBlocks)
        for (int i = l.indexOf(b.start); i < l.indexOf(b.end); i++) handlers.computeIfAbsent(i, k -> new ArrayList<>()).add(b);
    String[] guard = new String[n];
    List<Object[]> stores = new ArrayList<>();
    PriorityQueue<Integer> q = new PriorityQueue<>();
    at[0] = f;
    q.add(0);
    boolean[] queued = new boolean[n];
    Set<Node> ret = x.ret;
    while (!q.isEmpty()) {
      int i = q.poll();
      queued[i] = false;
      Frame g = at[i].copy();
      for (TryCatchBlockNode b : handlers.getOrDefault(i, Collections.emptyList())) {
        Frame h = new Frame(g.locals.clone(), new ArrayList<>());
        h.arrays = g.arrays;
        h.push(V.NONE);
        flow(at, q, queued, l.indexOf(b.handler), h);
      }
      AbstractInsnNode in = l.get(i);
      if (in.getOpcode() < 0) {
        if (i + 1 < n) flow(at, q, queued, i + 1, g);
        continue;
      }
      step(self, x, i, in, g, guard, stores);
      int[] next = Calls.next(l, i);
      for (int k = 0; k < next.length; k++) {
        if (next[k] >= n) continue;
        Frame h = g;
        int op = in.getOpcode();
        if (guard[i] != null && guard[i].startsWith("isArray:") && (op == Opcodes.IFEQ && k == 0 || op == Opcodes.IFNE && k == 1)) {
          h = g.copy();
          h.know(guard[i].substring(8));
        }
        flow(at, q, queued, next[k], h);
      }
    }
    if (collecting)
      for (Object[] s : stores) {
        int i = (Integer) s[0];
        V base = (V) s[1], value = (V) s[2];
        FieldInsnNode fi = (FieldInsnNode) l.get(i);
        String cache = cache(x, l, i, fi, guard, value);
        String where = x.m.cls.name + "." + mn.name + ":" + line(x.m, i);
        if (fi.getOpcode() == Opcodes.PUTSTATIC) writes.add(new Write(self, i, "the static field " + fi.name, where, Collections.singleton(new Node(Phase.STATIC, null, fi.owner + "." + fi.name)), cache));
        else if (!base.to.isEmpty()) writes.add(new Write(self, i, "the field " + fi.name, where, base.to, cache));
      }
  }

  private static Set<Node> param(Inst x, int p) {
    return p < x.params.size() ? new LinkedHashSet<>(x.params.get(p)) : Collections.emptySet();
  }

  private static void flow(Frame[] at, PriorityQueue<Integer> q, boolean[] queued, int t, Frame g) {
    boolean ch;
    if (at[t] == null) {
      at[t] = g.copy();
      ch = true;
    } else ch = at[t].join(g);
    if (ch && !queued[t]) {
      queued[t] = true;
      q.add(t);
    }
  }

  /** A field filled once from nothing but its object: every thread that does it stores the same. */
  private String cache(Inst x, InsnList l, int i, FieldInsnNode f, String[] guard, V value) {
    Type t = Type.getType(f.desc);
    boolean word = t.getSort() < Type.ARRAY ? t.getSize() == 1 : t.getSort() == Type.OBJECT && immutable(t.getInternalName());
    if (!word) return null;
    long own = x.m.isStatic() || f.getOpcode() == Opcodes.PUTSTATIC ? 0 : 1;
    if ((value.deps & ~own) != 0) return null;
    String key = f.owner + "." + f.name;
    for (int b = 0; b < guard.length; b++) {
      if (!key.equals(guard[b])) continue;
      int[] next = Calls.next(l, b);
      if (next.length != 2) continue;
      int op = l.get(b).getOpcode();
      boolean jump = op == Opcodes.IFNULL || op == Opcodes.IFEQ || op == Opcodes.IF_ICMPEQ;
      int unset = next[jump ? 1 : 0];
      if (!reachable(l, i, b, unset)) return "filled when unset, from the object alone";
    }
    return null;
  }

  /** Can the target be reached from the start without the given edge? */
  private static boolean reachable(InsnList l, int target, int from, int to) {
    boolean[] seen = new boolean[l.size()];
    Deque<Integer> q = new ArrayDeque<>();
    q.add(0);
    while (!q.isEmpty()) {
      int i = q.poll();
      if (i >= seen.length || seen[i]) continue;
      seen[i] = true;
      if (i == target) return true;
      for (int s : Calls.next(l, i)) if (i != from || s != to) q.add(s);
    }
    return false;
  }

  private void step(Inst x, Inst real, int i, AbstractInsnNode in, Frame g, String[] guard, List<Object[]> stores) {
    int op = in.getOpcode();
    String where = x.m.cls.name + "." + x.m.node.name + ":" + line(x.m, i);
    if (op >= Opcodes.ICONST_M1 && op <= Opcodes.ICONST_5 || op >= Opcodes.FCONST_0 && op <= Opcodes.FCONST_2 || op == Opcodes.BIPUSH || op == Opcodes.SIPUSH || op == Opcodes.ACONST_NULL) g.none(1);
    else if (op == Opcodes.LCONST_0 || op == Opcodes.LCONST_1 || op == Opcodes.DCONST_0 || op == Opcodes.DCONST_1) g.none(2);
    else if (op == Opcodes.LDC) g.none(((LdcInsnNode) in).cst instanceof Long || ((LdcInsnNode) in).cst instanceof Double ? 2 : 1);
    else if (op == Opcodes.ILOAD || op == Opcodes.FLOAD || op == Opcodes.ALOAD || op == Opcodes.LLOAD || op == Opcodes.DLOAD) {
      int var = ((VarInsnNode) in).var;
      V v = g.locals[var];
      if (v == null) v = V.NONE;
      if (op == Opcodes.ALOAD && v.src == null) v = new V(v.to, v.deps, "local " + var);
      g.push(known(g, v));
      if (op == Opcodes.LLOAD || op == Opcodes.DLOAD) g.none(1);
    } else if (op == Opcodes.ISTORE || op == Opcodes.FSTORE || op == Opcodes.ASTORE || op == Opcodes.LSTORE || op == Opcodes.DSTORE) {
      if (op == Opcodes.LSTORE || op == Opcodes.DSTORE) g.pop();
      int var = ((VarInsnNode) in).var;
      V v = g.pop();
      if (g.arrays.contains("local " + var)) {
        g.arrays = new HashSet<>(g.arrays);
        g.arrays.remove("local " + var);
      }
      g.locals[var] = v.src != null && v.src.startsWith("local ") ? v.free() : v;
    } else if (op >= Opcodes.IALOAD && op <= Opcodes.SALOAD) {
      V idx = g.pop(), arr = g.pop();
      Set<Node> to = new LinkedHashSet<>();
      if (op == Opcodes.AALOAD) {
        to.addAll(load(arr.to, "[]"));
        if (arr.to.contains(user) || arr.to.contains(array)) to.add(user);
      }
      g.push(new V(to, arr.deps | idx.deps, null));
      if (op == Opcodes.LALOAD || op == Opcodes.DALOAD) g.none(1);
    } else if (op >= Opcodes.IASTORE && op <= Opcodes.SASTORE) {
      if (op == Opcodes.LASTORE || op == Opcodes.DASTORE) g.pop();
      V v = g.pop();
      g.pop();
      V arr = g.pop();
      for (Node k : arr.to) if (op == Opcodes.AASTORE) store(k, "[]", v.to);
      write(x, "an array element", where, arr.to);
    } else if (op == Opcodes.POP) g.pop();
    else if (op == Opcodes.POP2) g.pop(2);
    else if (op == Opcodes.DUP) g.push(g.peek(0));
    else if (op == Opcodes.DUP_X1 || op == Opcodes.DUP_X2) {
      V a = g.peek(0);
      g.stack.add(g.stack.size() - (op == Opcodes.DUP_X1 ? 2 : 3), a);
    } else if (op == Opcodes.DUP2 || op == Opcodes.DUP2_X1 || op == Opcodes.DUP2_X2) {
      V a = g.peek(1), b = g.peek(0);
      int k = g.stack.size() - (op == Opcodes.DUP2 ? 2 : op == Opcodes.DUP2_X1 ? 3 : 4);
      g.stack.add(k, a);
      g.stack.add(k + 1, b);
    } else if (op == Opcodes.SWAP) {
      V a = g.pop(), b = g.pop();
      g.push(a);
      g.push(b);
    } else if (op >= Opcodes.IADD && op <= Opcodes.LXOR) arithmetic(op, g);
    else if (op >= Opcodes.I2L && op <= Opcodes.I2S) {
      int from = op <= Opcodes.I2D || op >= Opcodes.I2B ? 1 : op <= Opcodes.L2D ? 2 : op <= Opcodes.F2D ? 1 : 2;
      int to = op == Opcodes.I2L || op == Opcodes.I2D || op == Opcodes.L2D || op == Opcodes.F2L || op == Opcodes.F2D || op == Opcodes.D2L ? 2 : 1;
      if (from == 2) g.pop();
      V v = g.pop();
      g.push(v.free());
      g.none(to - 1);
    } else if (op >= Opcodes.LCMP && op <= Opcodes.DCMPG) {
      int w = op == Opcodes.FCMPL || op == Opcodes.FCMPG ? 1 : 2;
      long d = 0;
      for (int k = 0; k < 2 * w; k++) d |= g.pop().deps;
      g.push(new V(Collections.emptySet(), d, null));
    } else if (op >= Opcodes.IFEQ && op <= Opcodes.IFLE || op == Opcodes.IFNULL || op == Opcodes.IFNONNULL) {
      V v = g.pop();
      if (op == Opcodes.IFEQ || op == Opcodes.IFNE || op == Opcodes.IFNULL || op == Opcodes.IFNONNULL) guard[i] = v.src;
    } else if (op >= Opcodes.IF_ICMPEQ && op <= Opcodes.IF_ACMPNE) {
      V a = g.pop(), b = g.pop();
      if (op == Opcodes.IF_ICMPEQ || op == Opcodes.IF_ICMPNE) guard[i] = a.src == null && a.deps == 0 ? b.src : b.src == null && b.deps == 0 ? a.src : null;
    } else if (op == Opcodes.TABLESWITCH || op == Opcodes.LOOKUPSWITCH || op == Opcodes.ATHROW || op == Opcodes.MONITORENTER || op == Opcodes.MONITOREXIT) g.pop();
    else if (op >= Opcodes.IRETURN && op < Opcodes.RETURN) {
      if (op == Opcodes.LRETURN || op == Opcodes.DRETURN) g.pop();
      V v = g.pop();
      if (real.ret.addAll(v.to)) changed = true;
      if ((real.retDeps | v.deps) != real.retDeps) {
        real.retDeps |= v.deps;
        changed = true;
      }
    } else if (in instanceof FieldInsnNode) field(x, i, (FieldInsnNode) in, g, stores);
    else if (in instanceof MethodInsnNode) {
      MethodInsnNode c = (MethodInsnNode) in;
      List<V> a = args(g, c.desc);
      if (op != Opcodes.INVOKESTATIC) a.add(0, g.pop());
      V r = call(x, where, op, c.owner, c.name, c.desc, a);
      if (c.name.equals("getClass") && a.get(0).src != null) r = new V(r.to, r.deps, "class:" + a.get(0).src);
      else if (c.name.equals("isArray") && c.owner.equals("java/lang/Class") && a.get(0).src != null && a.get(0).src.startsWith("class:")) r = new V(r.to, r.deps, "isArray:" + a.get(0).src.substring(6));
      else if (c.owner.equals("java/lang/reflect/Array") && c.name.equals("getLength") && a.get(0).src != null) g.know(a.get(0).src);
      g.push(r, Type.getReturnType(c.desc));
    } else if (in instanceof InvokeDynamicInsnNode) {
      InvokeDynamicInsnNode c = (InvokeDynamicInsnNode) in;
      List<V> a = args(g, c.desc);
      Handle h = null;
      for (Object o : c.bsmArgs) if (o instanceof Handle) h = (Handle) o;
      Type rt = Type.getReturnType(c.desc);
      if (h == null || rt.getSort() != Type.OBJECT) g.push(new V(Collections.emptySet(), deps(a), null), rt);
      else {
        Node n = node(x.phase, rt.getInternalName(), at(where + "#" + i, x));
        if (n.impl == null) {
          n.impl = h;
          n.sam = c.name;
          n.captures = a.size();
          changed = true;
        }
        for (int k = 0; k < a.size(); k++) store(n, "$c" + k, a.get(k).to);
        g.push(new V(Collections.singleton(n), deps(a), null));
      }
    } else if (op == Opcodes.NEW) {
      String c = ((TypeInsnNode) in).desc;
      g.push(immutable(c) || prog.isSub(c, "java/lang/Throwable") ? V.NONE : V.of(Collections.singleton(node(x.phase, c, at(where + "#" + i, x)))));
    } else if (op == Opcodes.NEWARRAY) {
      V len = g.pop();
      g.push(new V(Collections.singleton(node(x.phase, "[" + "ZCFDBSIJ".charAt(((IntInsnNode) in).operand - 4), at(where + "#" + i, x))), len.deps, null));
    } else if (op == Opcodes.ANEWARRAY) {
      V len = g.pop();
      String d = ((TypeInsnNode) in).desc;
      g.push(new V(Collections.singleton(node(x.phase, "[" + (d.startsWith("[") ? d : "L" + d + ";"), at(where + "#" + i, x))), len.deps, null));
    } else if (op == Opcodes.MULTIANEWARRAY) {
      g.pop(((MultiANewArrayInsnNode) in).dims);
      g.push(V.of(Collections.singleton(node(x.phase, ((MultiANewArrayInsnNode) in).desc, at(where + "#" + i, x)))));
    } else if (op == Opcodes.ARRAYLENGTH || op == Opcodes.INSTANCEOF) {
      V v = g.pop();
      g.push(new V(Collections.emptySet(), v.deps, null));
    } else if (op == Opcodes.CHECKCAST) {
      V v = g.pop();
      g.push(new V(filter(v.to, ((TypeInsnNode) in).desc), v.deps, v.src));
    } else if (op != Opcodes.NOP && op != Opcodes.IINC && op != Opcodes.GOTO && op != Opcodes.RETURN) throw new Undecided("opcode " + op);
  }

  private V known(Frame g, V v) {
    if (v.src == null || !g.arrays.contains(v.src) || !v.to.contains(user)) return v;
    Set<Node> t = new LinkedHashSet<>(v.to);
    t.remove(user);
    t.add(array);
    return new V(t, v.deps, v.src);
  }

  private static List<V> args(Frame g, String desc) {
    Type[] ts = Type.getArgumentTypes(desc);
    LinkedList<V> r = new LinkedList<>();
    for (int k = ts.length - 1; k >= 0; k--) {
      if (ts[k].getSize() == 2) g.pop();
      r.addFirst(g.pop());
    }
    return new ArrayList<>(r);
  }

  private static void arithmetic(int op, Frame g) {
    int w, shape; // 2 operands, 1 operand, shift
    if (op <= Opcodes.DREM) {
      int k = (op - Opcodes.IADD) % 4;
      w = k == 1 || k == 3 ? 2 : 1;
      shape = 2;
    } else if (op <= Opcodes.DNEG) return;
    else if (op <= Opcodes.LUSHR) {
      w = (op - Opcodes.ISHL) % 2 == 1 ? 2 : 1;
      shape = 3;
    } else {
      w = (op - Opcodes.IAND) % 2 == 1 ? 2 : 1;
      shape = 2;
    }
    long d = 0;
    int pops = shape == 2 ? 2 * w : w + 1;
    for (int k = 0; k < pops; k++) d |= g.pop().deps;
    g.push(new V(Collections.emptySet(), d, null));
    g.none(w - 1);
  }

  private void field(Inst x, int i, FieldInsnNode f, Frame g, List<Object[]> stores) {
    Type t = Type.getType(f.desc);
    String key = f.owner + "." + f.name;
    switch (f.getOpcode()) {
      case Opcodes.GETSTATIC:
        {
          Set<Node> s = statics.get(key);
          Set<Node> r = s == null ? Collections.emptySet() : new LinkedHashSet<>(s);
          if (!prog.isRepo(f.owner) && t.getSort() >= Type.ARRAY && !immutable(Prog.strip(f.desc))) r = Collections.singleton(node(Phase.STATIC, Prog.strip(f.desc), key));
          g.push(new V(r, 0, key), t);
          return;
        }
      case Opcodes.PUTSTATIC:
        {
          if (t.getSize() == 2) g.pop();
          V v = g.pop();
          if (!v.to.isEmpty() && statics.computeIfAbsent(key, k -> new LinkedHashSet<>()).addAll(v.to)) changed = true;
          if (!x.m.node.name.equals("<clinit>")) stores.add(new Object[] {i, V.NONE, v});
          return;
        }
      case Opcodes.GETFIELD:
        {
          V b = g.pop();
          g.push(known(g, new V(load(b.to, f.name), b.deps, key)), t);
          return;
        }
      default:
        {
          if (t.getSize() == 2) g.pop();
          V v = g.pop(), b = g.pop();
          for (Node n : b.to) store(n, f.name, v.to);
          stores.add(new Object[] {i, b, v});
        }
    }
  }
}
