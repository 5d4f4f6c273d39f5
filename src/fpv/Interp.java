package fpv;

import java.math.BigInteger;
import java.util.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;

/**
 * Abstract interpreter over the bytecode of the type-checked program. Forward worklist in reverse
 * post-order; states that meet at a join point are merged when they agree on everything but numeric
 * facts; loops are summarised by induction-variable recognition plus an inductive-invariant fixpoint.
 */
final class Interp {
  interface Hook {
    /** Returns null to decline. */
    List<Out> call(Interp in, State st, String owner, String name, String desc, List<Val> args, String where);
  }

  /** An object the caller brings, which is none of those the analysed code makes. */
  private static boolean input(Val v) {
    return v instanceof T && ((T) v).args.isEmpty() && !((T) v).opaque;
  }

  interface LoopListener {
    void loop(Cfg g, int header, Fr head, Fr entry, Lin k, List<Fr> backs, Res fin);
  }

  static final class Pad extends Val {
    static final Pad P = new Pad();

    @Override
    public String toString() {
      return "_";
    }
  }

  /** A point of a method with its local variables and operand stack. */
  static final class Fr {
    int pc;
    Val[] loc;
    ArrayList<Val> stk;
    State st;

    Fr(int pc, Val[] loc, ArrayList<Val> stk, State st) {
      this.pc = pc;
      this.loc = loc;
      this.stk = stk;
      this.st = st;
    }

    Fr fork() {
      return new Fr(pc, loc.clone(), new ArrayList<>(stk), st.fork());
    }

    Fr forkWith(State s) {
      return new Fr(pc, loc.clone(), new ArrayList<>(stk), s);
    }

    void push(Val v) {
      if (v == null) throw new IllegalStateException("null pushed");
      stk.add(v);
    }

    void pushW(Val v) {
      push(v);
      stk.add(Pad.P);
    }

    Val pop() {
      return stk.remove(stk.size() - 1);
    }

    Val popW() {
      stk.remove(stk.size() - 1);
      return pop();
    }

    Lin popI() {
      return lin(pop());
    }

    Lin popJ() {
      return lin(popW());
    }
  }

  static final class Res {
    final List<Fr> exits = new ArrayList<>(), backs = new ArrayList<>();
    final List<Out> outs = new ArrayList<>();
  }

  final Prog prog;
  final Models models;
  final List<Hook> hooks = new ArrayList<>();
  final Map<Integer, HObj> staticHeap = new HashMap<>();
  final Map<String, List<Map<String, Val>>> statics = new HashMap<>();
  final Set<String> initRunning = new HashSet<>();
  final Set<String> unmodelled = new TreeSet<>();
  final Set<String> analysed = new TreeSet<>();
  LoopListener loopListener;
  int nextStatic = -1;
  long steps = 0, stepLimit = 3_000_000;
  /** Moment (System.nanoTime) after which the analysis gives up, so that a check always ends in time. */
  static long deadline = Long.MAX_VALUE;
  int maxStates = 6000;
  private final ArrayDeque<String> callStack = new ArrayDeque<>();
  private int clinitDepth = 0;
  boolean modelSeq = false;
  /** Only atomic sequences given as texts are read as texts; composite ones are analysed as written. */
  /** Relate searches in unknown texts to every character of the text already spoken of. */
  boolean exactSearch = false;
  boolean modelAtoms = false;
  boolean unrollFirst = false; // inputs of known shape: follow the iterations before summarising

  boolean partWraps = true; // tell the periods of a wrap apart
  int joinLimit = 40; // alike partitions kept apart at a join before they are joined for good

  Interp(Prog prog) {
    this.prog = prog;
    this.models = new Models(this);
  }

  static Lin lin(Val v) {
    if (v instanceof Lin) return (Lin) v;
    if (v instanceof T && T.numeric(((T) v).desc)) return Lin.of((T) v);
    throw new Undecided("not a number: " + v + (v == null ? "" : " " + v.getClass().getSimpleName()));
  }

  // ---- values --------------------------------------------------------------------------------

  /** Default representation of a fresh value of the given type. */
  Val mk(String desc, T t) {
    if (T.numeric(desc)) return Lin.of(t);
    if (desc.equals("Ljava/lang/String;") && !t.fn.startsWith("nullable:")) return new TextV(Seg.whole(t), false);
    if (modelSeq && models.isSeqType(desc) && !t.fn.startsWith("nullable:")) return new TextV(Seg.whole(t), true);
    if (desc.equals("Ljava/math/BigInteger;"))
      return new BigV(Lin.of(T.of(t.fn, "#", null, null, t.args)));
    return t;
  }

  Val sym(String name, String desc) {
    return mk(desc, T.of(name, desc));
  }

  HObj obj(State st, Val v) {
    if (!(v instanceof ObjV)) return null;
    HObj h = st.heap.get(((ObjV) v).id);
    return h != null ? h : staticHeap.get(((ObjV) v).id);
  }

  void put(State st, Val v, HObj h) {
    st.heap.put(((ObjV) v).id, h);
  }

  static Val zero(String desc) {
    switch (desc.charAt(0)) {
      case 'F':
        return new DblV(0, true);
      case 'D':
        return new DblV(0, false);
      case 'L':
      case '[':
        return NullV.NULL;
      default:
        return Lin.ZERO;
    }
  }

  // ---- method execution ----------------------------------------------------------------------

  List<Out> exec(Prog.M m, List<Val> args, State st) {
    if (m.isAbstract()) throw new Undecided("abstract method " + m);
    ensureInit(m.cls.name);
    if (callStack.size() > 60) throw new Undecided("call depth");
    int same = 0;
    for (String s : callStack) if (s.equals(m.id())) same++;
    if (same > 4) throw new Undecided("recursion in " + m);
    analysed.add(m.id());
    Cfg g = m.cfg();
    Val[] loc = new Val[m.node.maxLocals + 1];
    int i = 0, a = 0;
    if (!m.isStatic()) loc[i++] = args.get(a++);
    for (Type t : Type.getArgumentTypes(m.node.desc)) {
      loc[i] = args.get(a++);
      i += t.getSize();
    }
    callStack.push(m.id());
    try {
      Fr f = new Fr(0, loc, new ArrayList<>(), st);
      Res r = run(g, Collections.singletonList(f), null, -1);
      return mergeOuts(r.outs);
    } finally {
      callStack.pop();
    }
  }

  private List<Out> mergeOuts(List<Out> outs) {
    if (outs.size() < 2) return outs;
    List<Out> r = new ArrayList<>();
    for (Out o : outs) {
      boolean merged = false;
      for (int i = 0; i < r.size(); i++) {
        Out p = r.get(i);
        if (p.thrown != o.thrown || !Objects.equals(p.val, o.val) || !p.st.sameShape(o.st)) continue;
        if (o.st.facts.implies(p.st.facts) && refsImply(o.st, p.st)) {
          merged = true;
          break;
        }
        if (p.st.facts.implies(o.st.facts) && refsImply(p.st, o.st)) {
          r.set(i, o);
          merged = true;
          break;
        }
        Facts j = p.st.refs.equals(o.st.refs) ? Facts.exactJoin(p.st.facts, o.st.facts) : null;
        if (j != null) {
          p.st.facts = j;
          p.st.lossy |= o.st.lossy;
          merged = true;
          break;
        }
      }
      if (!merged) r.add(o);
    }
    if (r.size() > maxStates) throw new Undecided("too many partitions (" + r.size() + ")");
    return r;
  }

  /** Does knowledge a imply knowledge b about every reference? */
  private boolean refsImply(State a, State b) {
    for (Map.Entry<T, RefInfo> e : b.refs.entrySet()) {
      RefInfo x = a.info(e.getKey()), y = e.getValue();
      if (y.nullness != 0 && x.nullness != y.nullness) return false;
      if (!x.is.containsAll(y.is) || !x.not.containsAll(y.not)) return false;
    }
    return true;
  }

  Res run(Cfg g, List<Fr> init, BitSet body, int header) {
    Res res = new Res();
    TreeMap<Integer, List<Fr>> work = new TreeMap<>();
    for (Fr f : init) work.computeIfAbsent(g.rpo[f.pc], k -> new ArrayList<>()).add(f);
    boolean first = true;
    while (!work.isEmpty()) {
      List<Fr> list = work.pollFirstEntry().getValue();
      int pc = list.get(0).pc;
      if (g.join[pc] || list.size() > 1) {
        BitSet live = g.live(pc);
        for (Fr f : list) for (int i = 0; i < f.loc.length; i++) if (!live.get(i)) f.loc[i] = null;
      }
      if (list.size() > 1) list = merge(list);
      boolean loopHead = g.loops.containsKey(pc) && !(pc == header && first);
      first = false;
      for (Fr f : list) {
        if (loopHead) {
          Res r = loop(g, f, pc);
          res.outs.addAll(r.outs);
          for (Fr e : r.exits) route(g, e, body, header, work, res);
          continue;
        }
        // straight line
        Fr cur = f;
        while (true) {
          if (++steps > stepLimit) throw new Undecided("step budget");
          if ((steps & 255) == 0 && System.nanoTime() > deadline) throw new Undecided("time budget");
          List<Fr> next = step(g, cur, res);
          if (next.size() == 1) {
            Fr n = next.get(0);
            if (!g.join[n.pc] && !g.loops.containsKey(n.pc) && (body == null || body.get(n.pc)) && n.pc != header) {
              cur = n;
              continue;
            }
          }
          for (Fr n : next) route(g, n, body, header, work, res);
          break;
        }
      }
      int total = res.outs.size();
      for (List<Fr> l : work.values()) total += l.size();
      if (total > maxStates) throw new Undecided("too many partitions in " + g.m);
    }
    return res;
  }

  private void route(Cfg g, Fr f, BitSet body, int header, TreeMap<Integer, List<Fr>> work, Res res) {
    if (f.pc == header) res.backs.add(f);
    else if (body != null && !body.get(f.pc)) res.exits.add(f);
    else work.computeIfAbsent(g.rpo[f.pc], k -> new ArrayList<>()).add(f);
  }

  List<Fr> mergeFrames(List<Fr> list) {
    return list.size() > 1 ? merge(list) : list;
  }

  private List<Fr> merge(List<Fr> list) {
    List<Fr> r = new ArrayList<>();
    for (Fr f : list) {
      boolean merged = false;
      int alike = 0;
      for (int i = 0; i < r.size(); i++) {
        Fr p = r.get(i);
        if (!Arrays.equals(p.loc, f.loc) || !p.stk.equals(f.stk) || !p.st.sameShape(f.st)) continue;
        alike++;
        if (f.st.facts.implies(p.st.facts) && refsImply(f.st, p.st)) {
          merged = true;
          break;
        }
        if (p.st.facts.implies(f.st.facts) && refsImply(p.st, f.st)) {
          r.set(i, f);
          merged = true;
          break;
        }
        Facts j = p.st.refs.equals(f.st.refs) ? Facts.exactJoin(p.st.facts, f.st.facts) : null;
        if (j != null) {
          p.st.facts = j;
          p.st.lossy |= f.st.lossy;
          merged = true;
          break;
        }
        if (alike >= joinLimit) {
          p.st.facts = p.st.facts.join(f.st.facts);
          p.st.lossy = true;
          HashMap<T, RefInfo> nr = new HashMap<>();
          Set<T> keys = new HashSet<>(p.st.refs.keySet());
          keys.addAll(f.st.refs.keySet());
          for (T t : keys) nr.put(t, p.st.info(t).join(f.st.info(t)));
          p.st.refs = nr;
          merged = true;
          break;
        }
      }
      if (!merged) r.add(f);
    }
    return r;
  }

  // ---- exceptions ----------------------------------------------------------------------------

  String classOf(State st, Val v) {
    if (v instanceof ObjV) return obj(st, v).cls;
    if (v instanceof TextV) return ((TextV) v).seq ? "io/fastprintf/seq/Seq" : "java/lang/String";
    if (v instanceof BoxV) return ((BoxV) v).cls;
    if (v instanceof BigV) return "java/math/BigInteger";
    if (v instanceof ClsV) return "java/lang/Class";
    if (v instanceof LamV) return ((LamV) v).iface;
    if (v instanceof T) {
      T t = (T) v;
      RefInfo ri = st.info(t);
      String best = Prog.strip(t.desc);
      for (String c : ri.is) if (prog.isSub(c, best)) best = c;
      return best;
    }
    return null;
  }

  private void dispatchThrow(Cfg g, Fr f, State st, Val ex, Res res, List<Fr> next) {
    String c = classOf(st, ex);
    if (c == null) c = "java/lang/NullPointerException";
    for (TryCatchBlockNode tc : g.m.node.tryCatchBlocks) {
      int a = g.labels.get(tc.start), b = g.labels.get(tc.end);
      if (f.pc < a || f.pc >= b) continue;
      String type = tc.type == null ? "java/lang/Throwable" : tc.type;
      boolean sure = prog.isSub(c, type);
      boolean may = sure || (ex instanceof T && prog.isSub(type, c));
      if (!may) continue;
      ArrayList<Val> s = new ArrayList<>();
      s.add(ex);
      next.add(new Fr(g.labels.get(tc.handler), f.loc.clone(), s, sure ? st : st.fork()));
      if (sure) return;
    }
    res.outs.add(new Out(st, ex, true));
  }

  Out raise(State st, String cls, String where) {
    HObj h = new HObj(cls).with("$where", TextV.str(where));
    return new Out(st, st.alloc(h), true);
  }

  // ---- one instruction -----------------------------------------------------------------------

  private List<Fr> one(Fr f) {
    f.pc++;
    return Collections.singletonList(f);
  }

  private List<Fr> finish(Cfg g, Fr f, List<Out> outs, Type ret, Res res) {
    List<Fr> next = new ArrayList<>();
    boolean share = outs.size() == 1;
    for (Out o : outs) {
      if (o.thrown) dispatchThrow(g, f, o.st, o.val, res, next);
      else {
        Fr n = share ? f : f.forkWith(o.st);
        n.st = o.st;
        if (ret.getSort() != Type.VOID) {
          if (o.val == null) throw new IllegalStateException("no value");
          if (ret.getSize() == 2) n.pushW(o.val);
          else n.push(o.val);
        }
        n.pc = f.pc;
        next.add(n);
      }
    }
    int pc = f.pc;
    for (Fr n : next) if (n.pc == pc) n.pc = pc + 1;
    return next;
  }

  List<Fr> step(Cfg g, Fr f, Res res) {
    AbstractInsnNode in = g.insns[f.pc];
    int op = in.getOpcode();
    if (op < 0) return one(f);
    State st = f.st;
    switch (op) {
      case Opcodes.NOP:
        return one(f);
      case Opcodes.ACONST_NULL:
        f.push(NullV.NULL);
        return one(f);
      case Opcodes.ICONST_M1:
      case Opcodes.ICONST_0:
      case Opcodes.ICONST_1:
      case Opcodes.ICONST_2:
      case Opcodes.ICONST_3:
      case Opcodes.ICONST_4:
      case Opcodes.ICONST_5:
        f.push(Lin.of(op - Opcodes.ICONST_0));
        return one(f);
      case Opcodes.LCONST_0:
      case Opcodes.LCONST_1:
        f.pushW(Lin.of(op - Opcodes.LCONST_0));
        return one(f);
      case Opcodes.FCONST_0:
      case Opcodes.FCONST_1:
      case Opcodes.FCONST_2:
        f.push(new DblV(op - Opcodes.FCONST_0, true));
        return one(f);
      case Opcodes.DCONST_0:
      case Opcodes.DCONST_1:
        f.pushW(new DblV(op - Opcodes.DCONST_0, false));
        return one(f);
      case Opcodes.BIPUSH:
      case Opcodes.SIPUSH:
        f.push(Lin.of(((IntInsnNode) in).operand));
        return one(f);
      case Opcodes.LDC:
        {
          Object c = ((LdcInsnNode) in).cst;
          if (c instanceof Integer) f.push(Lin.of((Integer) c));
          else if (c instanceof Long) f.pushW(Lin.of((Long) c));
          else if (c instanceof Float) f.push(new DblV((Float) c, true));
          else if (c instanceof Double) f.pushW(new DblV((Double) c, false));
          else if (c instanceof String) f.push(TextV.str((String) c));
          else if (c instanceof Type) f.push(new ClsV(((Type) c).getInternalName()));
          else throw new Undecided("ldc " + c);
          return one(f);
        }
      case Opcodes.ILOAD:
      case Opcodes.FLOAD:
      case Opcodes.ALOAD:
        f.push(f.loc[((VarInsnNode) in).var]);
        return one(f);
      case Opcodes.LLOAD:
      case Opcodes.DLOAD:
        f.pushW(f.loc[((VarInsnNode) in).var]);
        return one(f);
      case Opcodes.ISTORE:
      case Opcodes.FSTORE:
      case Opcodes.ASTORE:
        f.loc[((VarInsnNode) in).var] = f.pop();
        return one(f);
      case Opcodes.LSTORE:
      case Opcodes.DSTORE:
        f.loc[((VarInsnNode) in).var] = f.popW();
        return one(f);
      case Opcodes.IINC:
        {
          IincInsnNode ii = (IincInsnNode) in;
          f.loc[ii.var] = Terms.signed(lin(f.loc[ii.var]).add(ii.incr), 32, st.facts);
          return one(f);
        }
      case Opcodes.POP:
        f.pop();
        return one(f);
      case Opcodes.POP2:
        f.pop();
        f.pop();
        return one(f);
      case Opcodes.DUP:
        f.push(f.stk.get(f.stk.size() - 1));
        return one(f);
      case Opcodes.DUP_X1:
        {
          Val a = f.pop(), b = f.pop();
          f.stk.add(a);
          f.stk.add(b);
          f.stk.add(a);
          return one(f);
        }
      case Opcodes.DUP_X2:
        {
          Val a = f.pop(), b = f.pop(), c = f.pop();
          f.stk.add(a);
          f.stk.add(c);
          f.stk.add(b);
          f.stk.add(a);
          return one(f);
        }
      case Opcodes.DUP2:
        {
          Val a = f.stk.get(f.stk.size() - 1), b = f.stk.get(f.stk.size() - 2);
          f.stk.add(b);
          f.stk.add(a);
          return one(f);
        }
      case Opcodes.DUP2_X1:
        {
          Val a = f.pop(), b = f.pop(), c = f.pop();
          f.stk.add(b);
          f.stk.add(a);
          f.stk.add(c);
          f.stk.add(b);
          f.stk.add(a);
          return one(f);
        }
      case Opcodes.DUP2_X2:
        {
          Val a = f.pop(), b = f.pop(), c = f.pop(), d = f.pop();
          f.stk.add(b);
          f.stk.add(a);
          f.stk.add(d);
          f.stk.add(c);
          f.stk.add(b);
          f.stk.add(a);
          return one(f);
        }
      case Opcodes.SWAP:
        {
          Val a = f.pop(), b = f.pop();
          f.stk.add(a);
          f.stk.add(b);
          return one(f);
        }
      case Opcodes.IADD:
      case Opcodes.ISUB:
      case Opcodes.IMUL:
      case Opcodes.IDIV:
      case Opcodes.IREM:
      case Opcodes.ISHL:
      case Opcodes.ISHR:
      case Opcodes.IUSHR:
      case Opcodes.IAND:
      case Opcodes.IOR:
      case Opcodes.IXOR:
        {
          Lin b = f.popI(), a = f.popI();
          return arith(g, f, op, a, b, 32, res);
        }
      case Opcodes.LADD:
      case Opcodes.LSUB:
      case Opcodes.LMUL:
      case Opcodes.LDIV:
      case Opcodes.LREM:
      case Opcodes.LAND:
      case Opcodes.LOR:
      case Opcodes.LXOR:
        {
          Lin b = f.popJ(), a = f.popJ();
          return arith(g, f, op - 1, a, b, 64, res);
        }
      case Opcodes.LSHL:
      case Opcodes.LSHR:
      case Opcodes.LUSHR:
        {
          Lin b = f.popI(), a = f.popJ();
          return arith(g, f, op - 1, a, b, 64, res);
        }
      case Opcodes.INEG:
      case Opcodes.LNEG:
        {
          int bits = op == Opcodes.INEG ? 32 : 64;
          Lin a = bits == 32 ? f.popI() : f.popJ();
          Lin min = Lin.of(Terms.pow2(bits - 1).negate());
          List<Fr> r = new ArrayList<>();
          State s1 = st.withEq(a.sub(min));
          State s2 = s1 == null ? st : st.withNe(a.sub(min));
          if (s1 != null) {
            Fr n = f.forkWith(s1);
            n.pc++;
            if (bits == 32) n.push(min);
            else n.pushW(min);
            r.add(n);
          }
          if (s2 != null) {
            Fr n = f.forkWith(s2);
            n.pc++;
            if (bits == 32) n.push(a.neg());
            else n.pushW(a.neg());
            r.add(n);
          }
          return r;
        }
      case Opcodes.FADD:
      case Opcodes.FSUB:
      case Opcodes.FMUL:
      case Opcodes.FDIV:
      case Opcodes.FREM:
        {
          Val b = f.pop(), a = f.pop();
          f.push(fp((op - Opcodes.FADD) / 4, a, b, true));
          return one(f);
        }
      case Opcodes.DADD:
      case Opcodes.DSUB:
      case Opcodes.DMUL:
      case Opcodes.DDIV:
      case Opcodes.DREM:
        {
          Val b = f.popW(), a = f.popW();
          f.pushW(fp((op - Opcodes.DADD) / 4, a, b, false));
          return one(f);
        }
      case Opcodes.FNEG:
        f.push(fneg(f.pop(), true));
        return one(f);
      case Opcodes.DNEG:
        f.pushW(fneg(f.popW(), false));
        return one(f);
      case Opcodes.I2L:
        f.pushW(f.popI());
        return one(f);
      case Opcodes.L2I:
        return wrapped(f, Terms.signed(f.popJ(), 32, st.facts), false);
      case Opcodes.I2B:
        return wrapped(f, Terms.signed(f.popI(), 8, st.facts), false);
      case Opcodes.I2S:
        return wrapped(f, Terms.signed(f.popI(), 16, st.facts), false);
      case Opcodes.I2C:
        return wrapped(f, Terms.unsigned(f.popI(), 16, st.facts), false);
      case Opcodes.I2F:
        f.push(conv("i2f", f.pop(), "F"));
        return one(f);
      case Opcodes.I2D:
        f.pushW(conv("i2d", f.pop(), "D"));
        return one(f);
      case Opcodes.L2F:
        f.push(conv("l2f", f.popW(), "F"));
        return one(f);
      case Opcodes.L2D:
        f.pushW(conv("l2d", f.popW(), "D"));
        return one(f);
      case Opcodes.F2I:
        f.push(conv("d2i", f2d(f.pop()), "I"));
        return one(f);
      case Opcodes.F2L:
        f.pushW(conv("d2l", f2d(f.pop()), "J"));
        return one(f);
      case Opcodes.F2D:
        f.pushW(f2d(f.pop()));
        return one(f);
      case Opcodes.D2I:
        f.push(conv("d2i", f.popW(), "I"));
        return one(f);
      case Opcodes.D2L:
        f.pushW(conv("d2l", f.popW(), "J"));
        return one(f);
      case Opcodes.D2F:
        f.push(conv("d2f", f.popW(), "F"));
        return one(f);
      case Opcodes.LCMP:
        {
          Val b = f.popW(), a = f.popW();
          f.push(new CmpV(a, b, 'J', false));
          return one(f);
        }
      case Opcodes.FCMPL:
      case Opcodes.FCMPG:
        {
          Val b = f.pop(), a = f.pop();
          f.push(new CmpV(f2d(a), f2d(b), 'D', op == Opcodes.FCMPG));
          return one(f);
        }
      case Opcodes.DCMPL:
      case Opcodes.DCMPG:
        {
          Val b = f.popW(), a = f.popW();
          f.push(new CmpV(a, b, 'D', op == Opcodes.DCMPG));
          return one(f);
        }
      case Opcodes.IFEQ:
      case Opcodes.IFNE:
      case Opcodes.IFLT:
      case Opcodes.IFGE:
      case Opcodes.IFGT:
      case Opcodes.IFLE:
        {
          Val v = f.pop();
          int target = g.labels.get(((JumpInsnNode) in).label);
          if (v instanceof CmpV) return branchCmp(g, f, op, (CmpV) v, target);
          return branch(g, f, op - Opcodes.IFEQ, lin(v), target);
        }
      case Opcodes.IF_ICMPEQ:
      case Opcodes.IF_ICMPNE:
      case Opcodes.IF_ICMPLT:
      case Opcodes.IF_ICMPGE:
      case Opcodes.IF_ICMPGT:
      case Opcodes.IF_ICMPLE:
        {
          Lin b = f.popI(), a = f.popI();
          return branch(g, f, op - Opcodes.IF_ICMPEQ, a.sub(b), g.labels.get(((JumpInsnNode) in).label));
        }
      case Opcodes.IF_ACMPEQ:
      case Opcodes.IF_ACMPNE:
        {
          Val b = f.pop(), a = f.pop();
          int target = g.labels.get(((JumpInsnNode) in).label);
          Lin same = sameRef(st, a, b);
          return branch(g, f, op == Opcodes.IF_ACMPEQ ? 1 : 0, same, target);
        }
      case Opcodes.IFNULL:
      case Opcodes.IFNONNULL:
        {
          Val v = f.pop();
          int target = g.labels.get(((JumpInsnNode) in).label);
          boolean jumpIfNull = op == Opcodes.IFNULL;
          int n = nullness(st, v);
          if (n != 0) {
            f.pc = (n == 2) == jumpIfNull ? target : f.pc + 1;
            return Collections.singletonList(f);
          }
          T t = refTerm(v);
          Fr a = f.fork(), b = f;
          a.st.refs.put(t, a.st.info(t).isNull());
          b.st.refs.put(t, b.st.info(t).nonNull());
          a.st.note(g.where(f.pc));
          b.st.note(g.where(f.pc));
          int fall = f.pc + 1;
          a.pc = jumpIfNull ? target : fall;
          b.pc = jumpIfNull ? fall : target;
          return Arrays.asList(a, b);
        }
      case Opcodes.GOTO:
        f.pc = g.labels.get(((JumpInsnNode) in).label);
        return Collections.singletonList(f);
      case Opcodes.TABLESWITCH:
      case Opcodes.LOOKUPSWITCH:
        return doSwitch(g, f, in);
      case Opcodes.IRETURN:
      case Opcodes.FRETURN:
      case Opcodes.ARETURN:
        {
          Val v = f.pop();
          if (v instanceof CmpV) {
            for (Out o : models.resolveCmp(st, (CmpV) v)) res.outs.add(o);
          } else res.outs.add(new Out(st, v, false));
          return Collections.emptyList();
        }
      case Opcodes.LRETURN:
      case Opcodes.DRETURN:
        res.outs.add(new Out(st, f.popW(), false));
        return Collections.emptyList();
      case Opcodes.RETURN:
        res.outs.add(new Out(st, null, false));
        return Collections.emptyList();
      case Opcodes.ATHROW:
        {
          Val ex = f.pop();
          List<Fr> next = new ArrayList<>();
          dispatchThrow(g, f, st, ex, res, next);
          return next;
        }
      case Opcodes.GETSTATIC:
        return getStatic(g, f, (FieldInsnNode) in);
      case Opcodes.PUTSTATIC:
        {
          FieldInsnNode fi = (FieldInsnNode) in;
          Val v = Type.getType(fi.desc).getSize() == 2 ? f.popW() : f.pop();
          st.statics.put(fi.owner + "." + fi.name, v);
          if (clinitDepth == 0) st.events.add(new Event("PUTSTATIC", Arrays.asList(TextV.str(fi.owner + "." + fi.name), v), g.where(f.pc)));
          return one(f);
        }
      case Opcodes.GETFIELD:
        {
          FieldInsnNode fi = (FieldInsnNode) in;
          Val o = f.pop();
          boolean wide = Type.getType(fi.desc).getSize() == 2;
          if (o instanceof NullV) return finish(g, f, Collections.singletonList(raise(st, "java/lang/NullPointerException", g.where(f.pc))), Type.VOID_TYPE, res);
          Val v = null;
          HObj h = obj(st, o);
          if (h != null) {
            v = h.fields.get(fi.name);
            if (v == null) v = h.fields.containsKey("$sym") ? mk(fi.desc, T.of("fld:" + fi.name, fi.desc, h.fields.get("$sym"))) : zero(fi.desc);
          } else if (o instanceof T) v = mkField((T) o, fi.name, fi.desc);
          else throw new Undecided("getfield on " + o);
          if (wide) f.pushW(v);
          else f.push(v);
          return one(f);
        }
      case Opcodes.PUTFIELD:
        {
          FieldInsnNode fi = (FieldInsnNode) in;
          Val v = Type.getType(fi.desc).getSize() == 2 ? f.popW() : f.pop();
          Val o = f.pop();
          HObj h = obj(st, o);
          if (h != null) put(st, o, h.with(fi.name, v));
          else st.events.add(new Event("PUTFIELD", Arrays.asList(o, TextV.str(fi.name), v), g.where(f.pc)));
          return one(f);
        }
      case Opcodes.NEW:
        {
          String c = ((TypeInsnNode) in).desc;
          if (prog.isRepo(c)) ensureInit(c);
          f.push(st.alloc(models.fresh(c)));
          return one(f);
        }
      case Opcodes.NEWARRAY:
        {
          Lin n = f.popI();
          String[] d = {"Z", "C", "F", "D", "B", "S", "I", "J"};
          String e = d[((IntInsnNode) in).operand - 4];
          return finish(g, f, models.newArray(st, e, n, g.where(f.pc)), Type.getType(Object.class), res);
        }
      case Opcodes.ANEWARRAY:
        {
          Lin n = f.popI();
          String c = ((TypeInsnNode) in).desc;
          return finish(g, f, models.newArray(st, c.startsWith("[") ? c : "L" + c + ";", n, g.where(f.pc)), Type.getType(Object.class), res);
        }
      case Opcodes.ARRAYLENGTH:
        {
          Val a = f.pop();
          if (a instanceof NullV) return finish(g, f, Collections.singletonList(raise(st, "java/lang/NullPointerException", g.where(f.pc))), Type.VOID_TYPE, res);
          f.push(models.arrayLen(st, a));
          return one(f);
        }
      case Opcodes.IALOAD:
      case Opcodes.LALOAD:
      case Opcodes.FALOAD:
      case Opcodes.DALOAD:
      case Opcodes.AALOAD:
      case Opcodes.BALOAD:
      case Opcodes.CALOAD:
      case Opcodes.SALOAD:
        {
          Lin i = f.popI();
          Val a = f.pop();
          boolean wide = op == Opcodes.LALOAD || op == Opcodes.DALOAD;
          return finish(g, f, models.arrayGet(st, a, i, op, g.where(f.pc)), wide ? Type.LONG_TYPE : Type.INT_TYPE, res);
        }
      case Opcodes.IASTORE:
      case Opcodes.FASTORE:
      case Opcodes.AASTORE:
      case Opcodes.BASTORE:
      case Opcodes.CASTORE:
      case Opcodes.SASTORE:
      case Opcodes.LASTORE:
      case Opcodes.DASTORE:
        {
          Val v = op == Opcodes.LASTORE || op == Opcodes.DASTORE ? f.popW() : f.pop();
          Lin i = f.popI();
          Val a = f.pop();
          return finish(g, f, models.arrayPut(st, a, i, v, op, g.where(f.pc)), Type.VOID_TYPE, res);
        }
      case Opcodes.CHECKCAST:
        {
          String c = ((TypeInsnNode) in).desc;
          Val v = f.stk.get(f.stk.size() - 1);
          int k = instanceOf(st, v, c);
          if (v instanceof NullV) return one(f);
          if (v instanceof T) {
            T t = (T) v;
            if (k == 0 && st.info(t).nullness == 1 && st.info(t).not.contains(c)) {
              f.pop();
              return finish(g, f, Collections.singletonList(raise(st, "java/lang/ClassCastException", g.where(f.pc))), Type.VOID_TYPE, res);
            }
            if (k != 1) {
              RefInfo ri = st.info(t);
              Set<String> is = new TreeSet<>(ri.is);
              is.add(c);
              st.refs.put(t, new RefInfo(ri.nullness, is, ri.not));
            }
            return one(f);
          }
          if (k == 0) {
            f.pop();
            return finish(g, f, Collections.singletonList(raise(st, "java/lang/ClassCastException", g.where(f.pc))), Type.VOID_TYPE, res);
          }
          return one(f);
        }
      case Opcodes.INSTANCEOF:
        {
          String c = ((TypeInsnNode) in).desc;
          Val v = f.pop();
          int k = instanceOf(st, v, c);
          if (k >= 0) {
            f.push(Lin.of(k));
            return one(f);
          }
          T t = refTerm(v);
          Fr a = f.fork(), b = f;
          if (t != null) {
            a.st.refs.put(t, a.st.info(t).plusIs(c));
            b.st.refs.put(t, b.st.info(t).plusNot(c));
          }
          a.push(Lin.ONE);
          b.push(Lin.ZERO);
          a.st.note(g.where(f.pc));
          b.st.note(g.where(f.pc));
          a.pc++;
          b.pc++;
          return Arrays.asList(a, b);
        }
      case Opcodes.MONITORENTER:
      case Opcodes.MONITOREXIT:
        f.pop();
        return one(f);
      case Opcodes.INVOKEVIRTUAL:
      case Opcodes.INVOKESPECIAL:
      case Opcodes.INVOKESTATIC:
      case Opcodes.INVOKEINTERFACE:
        {
          MethodInsnNode mi = (MethodInsnNode) in;
          List<Val> args = popArgs(f, mi.desc, op != Opcodes.INVOKESTATIC);
          List<Out> outs = invoke(st, op, mi.owner, mi.name, mi.desc, args, g.where(f.pc));
          if (outs.size() > 1) for (Out o : outs) o.st.note(g.where(f.pc));
          return finish(g, f, outs, Type.getReturnType(mi.desc), res);
        }
      case Opcodes.INVOKEDYNAMIC:
        {
          InvokeDynamicInsnNode id = (InvokeDynamicInsnNode) in;
          List<Val> args = popArgs(f, id.desc, false);
          String bsm = id.bsm.getOwner() + "." + id.bsm.getName();
          if (bsm.equals("java/lang/invoke/LambdaMetafactory.metafactory") || bsm.equals("java/lang/invoke/LambdaMetafactory.altMetafactory")) {
            Handle h = (Handle) id.bsmArgs[1];
            f.push(new LamV(Type.getReturnType(id.desc).getInternalName(), id.name, ((Type) id.bsmArgs[0]).getDescriptor(), h, args));
            return one(f);
          }
          throw new Undecided("invokedynamic " + bsm);
        }
      default:
        throw new Undecided("opcode " + op);
    }
  }

  private List<Val> popArgs(Fr f, String desc, boolean recv) {
    Type[] ts = Type.getArgumentTypes(desc);
    LinkedList<Val> a = new LinkedList<>();
    for (int i = ts.length - 1; i >= 0; i--) {
      Val v = ts[i].getSize() == 2 ? f.popW() : f.pop();
      a.addFirst(v);
    }
    if (recv) a.addFirst(f.pop());
    return new ArrayList<>(a);
  }

  Val mkField(T o, String name, String desc) {
    if (desc.equals("Ljava/lang/String;") || models.isSeqType(desc)) {
      // nullable until tested
      T t = T.of("fld:" + name, desc, o);
      if (modelSeq || desc.equals("Ljava/lang/String;")) return new TextV(Seg.whole(t), !desc.equals("Ljava/lang/String;"));
      return t;
    }
    return mk(desc, T.of("fld:" + name, desc, o));
  }

  // ---- reference helpers ---------------------------------------------------------------------

  /** The term behind a reference value, if it is a single named text or term. */
  T refTerm(Val v) {
    if (v instanceof T) return (T) v;
    if (v instanceof TextV) {
      List<Seg> s = ((TextV) v).segs;
      if (s.size() == 1 && s.get(0).k == Seg.K.SUB && s.get(0).from.isConst(0) && s.get(0).to.equals(Terms.len(s.get(0).base)))
        return s.get(0).base;
    }
    return null;
  }

  /** 0 unknown, 1 non-null, 2 null. */
  int nullness(State st, Val v) {
    if (v instanceof NullV) return 2;
    if (v instanceof TextV && ((TextV) v).segs == null) throw new Undecided("text without contents");
    T t = refTerm(v);
    if (t == null) return 1;
    return st.info(t).nullness;
  }

  /** 1 yes, 0 no, -1 unknown. */
  int instanceOf(State st, Val v, String c) {
    if (v instanceof NullV) return 0;
    if (modelAtoms && v instanceof TextV && ((TextV) v).seq && prog.isRepo(c)) return prog.isSub("io/fastprintf/seq/AtomicSeq", c) ? 1 : 0;
    if (v instanceof T) {
      T t = (T) v;
      RefInfo ri = st.info(t);
      if (ri.nullness == 2) return 0;
      String sc = Prog.strip(t.desc);
      boolean sure = prog.isSub(sc, c);
      for (String i : ri.is) sure |= prog.isSub(i, c);
      if (sure) return ri.nullness == 1 ? 1 : -1;
      for (String n : ri.not) if (prog.isSub(c, n)) return 0;
      for (String i : ri.is) {
        if (!compatible(i, c)) return 0;
      }
      if (!compatible(sc, c)) return 0;
      return -1;
    }
    if (v instanceof TextV && ((TextV) v).seq) {
      for (String s : new String[] {"io/fastprintf/seq/Seq", "java/lang/CharSequence"}) if (s.equals(c)) return 1;
      return prog.isSub(c, "io/fastprintf/seq/Seq") ? -1 : 0;
    }
    if (v instanceof LamV) return prog.isSub(((LamV) v).iface, c) ? 1 : 0;
    String k = classOf(st, v);
    if (v instanceof ObjV && obj(st, v).fields.containsKey("$sym")) {
      if (prog.isSub(k, c)) return 1;
      return compatible(k, c) ? -1 : 0;
    }
    return prog.isSub(k, c) ? 1 : 0;
  }

  private boolean compatible(String a, String b) {
    if (prog.isSub(a, b) || prog.isSub(b, a)) return true;
    if (prog.isFinal(a) || prog.isFinal(b)) return false;
    return prog.isInterface(a) || prog.isInterface(b);
  }

  Lin sameRef(State st, Val a, Val b) {
    if (a.equals(b)) return Lin.ONE;
    int na = nullness(st, a), nb = nullness(st, b);
    if (na == 2 && nb == 2) return Lin.ONE;
    if (na == 2 && nb == 1 || na == 1 && nb == 2) return Lin.ZERO;
    if (a instanceof ObjV && b instanceof ObjV) return Lin.ZERO;
    if (a instanceof ObjV && !(b instanceof T) || b instanceof ObjV && !(a instanceof T)) return Lin.ZERO;
    if (input(a) && b instanceof ObjV || input(b) && a instanceof ObjV) return Lin.ZERO;
    return Terms.bool("same", a, b);
  }

  // ---- branches ------------------------------------------------------------------------------

  /** cond: 0 EQ, 1 NE, 2 LT, 3 GE, 4 GT, 5 LE (javac order of IFxx). */
  private List<Fr> branch(Cfg g, Fr f, int cond, Lin l, int target) {
    int fall = f.pc + 1;
    Facts t, e;
    Facts fs = f.st.facts;
    switch (cond) {
      case 0:
        t = fs.andEq(l);
        e = t == null ? fs : fs.andNe(l);
        break;
      case 1:
        e = fs.andEq(l);
        t = e == null ? fs : fs.andNe(l);
        break;
      case 2:
        t = fs.andGe(l.neg().add(-1));
        e = t == null ? fs : fs.andGe(l);
        break;
      case 3:
        t = fs.andGe(l);
        e = t == null ? fs : fs.andGe(l.neg().add(-1));
        break;
      case 4:
        t = fs.andGe(l.add(-1));
        e = t == null ? fs : fs.andGe(l.neg());
        break;
      default:
        t = fs.andGe(l.neg());
        e = t == null ? fs : fs.andGe(l.add(-1));
    }
    if (e == null) {
      f.st.facts = t;
      f.pc = target;
      return Collections.singletonList(f);
    }
    if (t == null) {
      f.st.facts = e;
      f.pc = fall;
      return Collections.singletonList(f);
    }
    Fr a = f.fork();
    a.st.facts = t;
    f.st.facts = e;
    a.st.note(g.where(f.pc));
    f.st.note(g.where(f.pc));
    a.pc = target;
    f.pc = fall;
    return Arrays.asList(a, f);
  }

  private List<Fr> branchCmp(Cfg g, Fr f, int op, CmpV c, int target) {
    if (c.kind == 'J') return branch(g, f, op - Opcodes.IFEQ, lin(c.a).sub(lin(c.b)), target);
    // floating point: reduce to a boolean atom of the relation tested
    List<Fr> byClass = branchClass(g, f, op, c, target);
    if (byClass != null) return byClass;
    boolean negate;
    Lin rel;
    switch (op) {
      case Opcodes.IFEQ:
        rel = drel("deq", c.a, c.b);
        negate = false;
        break;
      case Opcodes.IFNE:
        rel = drel("deq", c.a, c.b);
        negate = true;
        break;
      case Opcodes.IFLT:
        rel = c.nanIsGreater ? drel("dlt", c.a, c.b) : drel("dge", c.a, c.b);
        negate = !c.nanIsGreater;
        break;
      case Opcodes.IFGE:
        rel = c.nanIsGreater ? drel("dlt", c.a, c.b) : drel("dge", c.a, c.b);
        negate = c.nanIsGreater;
        break;
      case Opcodes.IFGT:
        rel = c.nanIsGreater ? drel("dle", c.a, c.b) : drel("dgt", c.a, c.b);
        negate = c.nanIsGreater;
        break;
      default: // IFLE
        rel = c.nanIsGreater ? drel("dle", c.a, c.b) : drel("dgt", c.a, c.b);
        negate = !c.nanIsGreater;
    }
    return branch(g, f, negate ? 0 : 1, rel, target);
  }

  /** A comparison with a special constant, or of a value with itself, decided by the classes of the value. */
  private List<Fr> branchClass(Cfg g, Fr f, int op, CmpV c, int target) {
    boolean swap = c.a instanceof DblV;
    Val x = swap ? c.b : c.a, y = swap ? c.a : c.b;
    if (!(x instanceof T) || !(y instanceof DblV) && !x.equals(y)) return null;
    // the instruction branches on the sign of the comparison, NaN counting as greater or smaller
    String rel = op == Opcodes.IFEQ || op == Opcodes.IFNE ? "deq" : op == Opcodes.IFLT || op == Opcodes.IFGE ? (c.nanIsGreater ? "dlt" : "dge") : c.nanIsGreater ? "dle" : "dgt";
    boolean negate = op == Opcodes.IFNE || op == (c.nanIsGreater ? Opcodes.IFGE : Opcodes.IFLT) || op == (c.nanIsGreater ? Opcodes.IFGT : Opcodes.IFLE);
    Set<Integer> on;
    if (x.equals(y)) on = rel.equals("dlt") || rel.equals("dgt") ? Dbl.of() : Dbl.not(Dbl.NAN);
    else {
      if (swap) rel = rel.equals("dlt") ? "dgt" : rel.equals("dgt") ? "dlt" : rel.equals("dle") ? "dge" : rel.equals("dge") ? "dle" : rel;
      on = Dbl.relation(rel, ((DblV) y).d);
    }
    if (on == null) return null;
    if (negate) on = Dbl.not(on);
    List<Fr> r = new ArrayList<>();
    int fall = f.pc + 1;
    for (Out o : Dbl.test(f.st, x, on, Lin.ONE, Lin.ZERO)) {
      Fr n = f.forkWith(o.st);
      n.st.note(g.where(f.pc));
      n.pc = o.val == Lin.ONE ? target : fall;
      r.add(n);
    }
    return r;
  }

  static Lin drel(String r, Val a, Val b) {
    if (a instanceof DblV && b instanceof DblV) {
      double x = ((DblV) a).d, y = ((DblV) b).d;
      boolean v = r.equals("deq") ? x == y : r.equals("dlt") ? x < y : r.equals("dle") ? x <= y : r.equals("dgt") ? x > y : x >= y;
      return Lin.of(v ? 1 : 0);
    }
    if (r.equals("deq") && a instanceof T && a.equals(b)) return Lin.ONE.sub(Terms.bool("dnan", a));
    if (r.equals("dgt")) return Terms.bool("dlt", b, a);
    if (r.equals("dge")) return Terms.bool("dle", b, a);
    if (r.equals("deq") && a instanceof DblV) return Terms.bool("deq", b, a);
    return Terms.bool(r, a, b);
  }

  private List<Fr> doSwitch(Cfg g, Fr f, AbstractInsnNode in) {
    Lin v = f.popI();
    List<Integer> keys = new ArrayList<>();
    List<Integer> targets = new ArrayList<>();
    int dflt;
    if (in instanceof TableSwitchInsnNode) {
      TableSwitchInsnNode t = (TableSwitchInsnNode) in;
      for (int i = 0; i < t.labels.size(); i++) {
        keys.add(t.min + i);
        targets.add(g.labels.get(t.labels.get(i)));
      }
      dflt = g.labels.get(t.dflt);
    } else {
      LookupSwitchInsnNode t = (LookupSwitchInsnNode) in;
      for (int i = 0; i < t.labels.size(); i++) {
        keys.add(t.keys.get(i));
        targets.add(g.labels.get(t.labels.get(i)));
      }
      dflt = g.labels.get(t.dflt);
    }
    BigInteger c = f.st.facts.valueOf(v);
    if (c != null) {
      int i = keys.indexOf(c.intValue());
      f.pc = i >= 0 ? targets.get(i) : dflt;
      return Collections.singletonList(f);
    }
    List<Fr> r = new ArrayList<>();
    State rest = f.st;
    for (int i = 0; i < keys.size() && rest != null; i++) {
      Lin d = v.add(-(long) keys.get(i));
      if (targets.get(i) == dflt) continue;
      State s = rest.withEq(d);
      if (s != null) {
        Fr n = f.forkWith(s);
        n.st.note(g.where(f.pc));
        n.pc = targets.get(i);
        r.add(n);
        rest = rest.withNe(d);
      }
    }
    if (rest != null) {
      Fr n = f.forkWith(rest == f.st ? rest.fork() : rest);
      n.st.note(g.where(f.pc));
      n.pc = dflt;
      r.add(n);
    }
    return r;
  }

  // ---- arithmetic ----------------------------------------------------------------------------

  private Val fp(int o, Val a, Val b, boolean fl) {
    String[] n = {"add", "sub", "mul", "div", "rem"};
    if (a instanceof DblV && b instanceof DblV) {
      double x = ((DblV) a).d, y = ((DblV) b).d, r;
      switch (o) {
        case 0:
          r = x + y;
          break;
        case 1:
          r = x - y;
          break;
        case 2:
          r = x * y;
          break;
        case 3:
          r = x / y;
          break;
        default:
          r = x % y;
      }
      return new DblV(fl ? (float) r : r, fl);
    }
    return T.of((fl ? "f" : "d") + n[o], fl ? "F" : "D", a, b);
  }

  private Val fneg(Val a, boolean fl) {
    if (a instanceof DblV) return new DblV(-((DblV) a).d, fl);
    if (a instanceof T && ((T) a).fn.equals(fl ? "fneg" : "dneg")) return ((T) a).args.get(0);
    return T.of(fl ? "fneg" : "dneg", fl ? "F" : "D", a);
  }

  static Val f2d(Val a) {
    if (a instanceof DblV) return new DblV(((DblV) a).d, false);
    if (a instanceof T && ((T) a).desc.equals("D")) return a;
    return T.of("f2d", "D", a);
  }

  private Val conv(String fn, Val a, String desc) {
    if (a instanceof DblV) {
      double d = ((DblV) a).d;
      switch (fn) {
        case "d2i":
          return Lin.of((int) d);
        case "d2l":
          return Lin.of((long) d);
        case "d2f":
          return new DblV((float) d, true);
        default:
      }
    }
    if (a instanceof Lin && ((Lin) a).isConst() && desc.length() == 1 && "FD".contains(desc)) {
      double d = ((Lin) a).c.doubleValue();
      return new DblV(desc.equals("F") ? (float) ((Lin) a).c.longValue() : d, desc.equals("F"));
    }
    // int and long sources convert alike
    if (fn.equals("i2d") || fn.equals("l2d")) fn = "n2d";
    if (fn.equals("i2f") || fn.equals("l2f")) fn = "n2f";
    T t = T.of(fn, desc, a);
    return T.numeric(desc) ? Lin.of(t) : t;
  }

  private List<Fr> arith(Cfg g, Fr f, int op, Lin a, Lin b, int bits, Res res) {
    State st = f.st;
    Facts fs = st.facts;
    BigInteger ca = a.isConst() ? a.c : fs.valueOf(a), cb = b.isConst() ? b.c : fs.valueOf(b);
    Lin r;
    switch (op) {
      case Opcodes.IADD:
        r = Terms.signed(a.add(b), bits, fs);
        break;
      case Opcodes.ISUB:
        r = Terms.signed(a.sub(b), bits, fs);
        break;
      case Opcodes.IMUL:
        if (cb != null) r = Terms.signed(a.mul(cb), bits, fs);
        else if (ca != null) r = Terms.signed(b.mul(ca), bits, fs);
        else {
          Lin x = a, y = b;
          if (x.toString().compareTo(y.toString()) > 0) {
            x = b;
            y = a;
          }
          r = Lin.of(T.of("mul" + bits, bits == 32 ? "I" : "J", x, y));
        }
        break;
      case Opcodes.IDIV:
      case Opcodes.IREM:
        {
          if (cb == null || cb.signum() == 0) {
            if (cb == null) {
              State z = st.withEq(b);
              List<Out> outs = new ArrayList<>();
              if (z != null) outs.add(raise(z, "java/lang/ArithmeticException", g.where(f.pc)));
              State nz = st.withNe(b);
              if (nz != null) outs.add(new Out(nz, Lin.of(T.of((op == Opcodes.IDIV ? "div" : "rem"), bits == 32 ? "I" : "J", a, b)), false));
              return finish(g, f, outs, bits == 32 ? Type.INT_TYPE : Type.LONG_TYPE, res);
            }
            return finish(g, f, Collections.singletonList(raise(st, "java/lang/ArithmeticException", g.where(f.pc))), Type.VOID_TYPE, res);
          }
          if (ca != null) r = Lin.of(op == Opcodes.IDIV ? ca.divide(cb) : ca.remainder(cb));
          else if (cb.equals(BigInteger.ONE)) r = op == Opcodes.IDIV ? a : Lin.ZERO;
          else {
            BigInteger lo = fs.lowerBound(a), hi = fs.upperBound(a);
            boolean nn = fs.entailsGe(a);
            BigInteger min = bits == 32 ? T.INT_MIN : T.LONG_MIN, max = bits == 32 ? T.INT_MAX : T.LONG_MAX;
            BigInteger acb = cb.abs();
            // range depends on the current facts, so it must not be part of the shared atom
            if (op == Opcodes.IDIV) {
              T t = T.of("div", "#", min.divide(acb).negate().max(max.divide(acb)).negate().subtract(BigInteger.ONE), min.divide(acb).abs().max(max.divide(acb)).add(BigInteger.ONE), a, Lin.of(cb));
              r = Lin.of(t);
              if (nn && cb.signum() > 0) {
                // cb*t <= a <= cb*t + cb-1
                if (!st.assumeGe(a.sub(r.mul(cb))) || !st.assumeGe(r.mul(cb).add(Lin.of(cb.subtract(BigInteger.ONE))).sub(a))) return Collections.emptyList();
              }
            } else {
              T t = T.of("rem", "#", acb.negate().add(BigInteger.ONE), acb.subtract(BigInteger.ONE), a, Lin.of(cb));
              r = Lin.of(t);
              if (nn && !st.assumeGe(r)) return Collections.emptyList();
            }
          }
          break;
        }
      case Opcodes.ISHL:
        if (cb != null) {
          int k = cb.intValue() & (bits - 1);
          r = Terms.signed(a.mul(Terms.pow2(k)), bits, fs);
        } else if (ca != null && ca.signum() == 0) r = Lin.ZERO;
        else r = Lin.of(T.of("shl" + bits, bits == 32 ? "I" : "J", a, b));
        break;
      case Opcodes.ISHR:
      case Opcodes.IUSHR:
        {
          boolean un = op == Opcodes.IUSHR;
          if (cb != null) {
            int k = cb.intValue() & (bits - 1);
            if (k == 0) r = a;
            else if (ca != null) {
              BigInteger x = un && ca.signum() < 0 ? ca.add(Terms.pow2(bits)) : ca;
              r = Lin.of(x.shiftRight(k));
            } else {
              Lin x = a;
              boolean nn = fs.entailsGe(a);
              if (un && !nn) x = Terms.unsigned(a, bits, fs);
              BigInteger xm = un ? Terms.pow2(bits - k).subtract(BigInteger.ONE) : Terms.pow2(bits - 1 - k).subtract(BigInteger.ONE);
              BigInteger xl = un ? BigInteger.ZERO : Terms.pow2(bits - 1 - k).negate();
              T t = T.of("shr" + (un && !nn ? "u" : ""), "#", xl, xm, x, Lin.of(k));
              if (nn && !un) t = T.of("shr", "#", xl, xm, x, Lin.of(k));
              r = Lin.of(t);
              BigInteger p = Terms.pow2(k);
              if (k <= 16 && x.atoms.length <= 4) {
                if (!st.assumeGe(x.sub(r.mul(p))) || !st.assumeGe(r.mul(p).add(Lin.of(p.subtract(BigInteger.ONE))).sub(x))) return Collections.emptyList();
              }
            }
          } else r = Lin.of(T.of((un ? "ushr" : "shr") + bits, bits == 32 ? "I" : "J", a, b));
          break;
        }
      case Opcodes.IAND:
        if (ca != null && cb != null) r = Lin.of(ca.and(cb));
        else if ((r = masked(op, a, b, ca, cb, fs)) != null) break;
        else if (a.equals(b)) r = a;
        else {
          if (ca != null) {
            BigInteger t = ca;
            ca = cb;
            cb = t;
            Lin tl = a;
            a = b;
            b = tl;
          }
          r = null;
          if (cb != null) {
            if (cb.signum() == 0) r = Lin.ZERO;
            for (int k : new int[] {8, 16, 32}) if (cb.equals(Terms.pow2(k).subtract(BigInteger.ONE)) && k < bits) r = Terms.unsigned(a, k, fs);
            if (cb.equals(BigInteger.ONE.negate())) r = a;
            if (r == null && cb.signum() > 0) r = Lin.of(T.of("and", "#", BigInteger.ZERO, cb, a, Lin.of(cb)));
          }
          if (r == null && isBool(a) && isBool(b)) r = Lin.of(T.of("and", "#", BigInteger.ZERO, BigInteger.ONE, a, b));
          if (r == null) {
            boolean nn = fs.entailsGe(a) || fs.entailsGe(b);
            r = Lin.of(T.of("and" + bits, bits == 32 ? "I" : "J", a, b));
            if (nn && !st.assumeGe(r)) return Collections.emptyList();
          }
        }
        if (isBool(a) && isBool(b) && r.atoms.length == 1 && r.atoms[0].fn.equals("and")) {
          // logical and of two booleans: r<=a, r<=b, r>=a+b-1
          if (!st.assumeGe(a.sub(r)) || !st.assumeGe(b.sub(r)) || !st.assumeGe(r.sub(a).sub(b).add(1))) return Collections.emptyList();
        }
        break;
      case Opcodes.IOR:
        if (ca != null && cb != null) r = Lin.of(ca.or(cb));
        else if (ca != null && ca.signum() == 0) r = b;
        else if (cb != null && cb.signum() == 0) r = a;
        else if (a.equals(b)) r = a;
        else if ((r = masked(op, a, b, ca, cb, fs)) != null) break;
        else if (isBool(a) && isBool(b)) {
          r = Lin.of(T.of("or", "#", BigInteger.ZERO, BigInteger.ONE, a, b));
          if (!st.assumeGe(r.sub(a)) || !st.assumeGe(r.sub(b)) || !st.assumeGe(a.add(b).sub(r))) return Collections.emptyList();
        } else {
          Lin x = a, y = b;
          if (x.toString().compareTo(y.toString()) > 0) {
            x = b;
            y = a;
          }
          r = Lin.of(T.of("or" + bits, bits == 32 ? "I" : "J", x, y));
        }
        break;
      case Opcodes.IXOR:
        if (ca != null && cb != null) r = Lin.of(ca.xor(cb));
        else if (ca != null && ca.signum() == 0) r = b;
        else if (cb != null && cb.signum() == 0) r = a;
        else if (cb != null && cb.equals(BigInteger.ONE.negate())) r = a.neg().add(-1);
        else if (cb != null && cb.equals(BigInteger.ONE) && isBool(a)) r = Lin.ONE.sub(a);
        else if (ca != null && ca.equals(BigInteger.ONE) && isBool(b)) r = Lin.ONE.sub(b);
        else if ((r = masked(op, a, b, ca, cb, fs)) != null) break;
        else {
          Lin x = a, y = b;
          if (x.toString().compareTo(y.toString()) > 0) {
            x = b;
            y = a;
          }
          r = Lin.of(T.of("xor" + bits, bits == 32 ? "I" : "J", x, y));
        }
        break;
      default:
        throw new Undecided("arith " + op);
    }
    if (op == Opcodes.IADD || op == Opcodes.ISUB) return wrapped(f, r, bits == 64);
    if (bits == 32) f.push(r);
    else f.pushW(r);
    return one(f);
  }

  /** Pushes a value; a wrap over few periods is told apart into the periods, in each of which it is linear. */
  private List<Fr> wrapped(Fr f, Lin r, boolean wide) {
    List<Fr> next = new ArrayList<>();
    if (partWraps && r.atoms.length == 1 && r.c.signum() == 0 && r.coef[0].equals(BigInteger.ONE) && !T.isOpaque(r)) {
      T t = r.atoms[0];
      int m = Terms.modBits(t.fn);
      if (m > 0 && t.args.size() == 1 && t.args.get(0) instanceof Lin && ((Lin) t.args.get(0)).atoms.length <= 2) {
        Lin x = (Lin) t.args.get(0);
        BigInteger lo = f.st.facts.lowerBound(x), hi = f.st.facts.upperBound(x), p = Terms.pow2(m);
        BigInteger base = t.fn.charAt(0) == 's' ? p.shiftRight(1).negate() : BigInteger.ZERO;
        if (lo != null && hi != null) {
          BigInteger from = Facts.floorDiv(lo.subtract(base), p), to = Facts.floorDiv(hi.subtract(base), p);
          if (to.subtract(from).bitLength() <= 1) {
            for (BigInteger k = from; k.compareTo(to) <= 0; k = k.add(BigInteger.ONE)) {
              Lin y = x.sub(Lin.of(k.multiply(p)));
              State st = f.st.withGe(y.sub(Lin.of(base)));
              if (st != null) st = st.withGe(Lin.of(base.add(p).subtract(BigInteger.ONE)).sub(y));
              if (st == null) continue;
              Fr n = f.forkWith(st);
              n.pc++;
              if (wide) n.pushW(y);
              else n.push(y);
              next.add(n);
            }
            return next;
          }
        }
      }
    }
    if (wide) f.pushW(r);
    else f.push(r);
    return one(f);
  }

  /**
   * A bit operation with a constant mask on a value whose upper bits are known: when x lies in one
   * aligned block of 2^k values and the mask leaves the low k bits alone, the operation is a shift
   * of x by a constant. Null if that is not the case.
   */
  private static Lin masked(int op, Lin a, Lin b, BigInteger ca, BigInteger cb, Facts fs) {
    if (ca == null == (cb == null)) return null;
    Lin x = ca == null ? a : b;
    BigInteger m = ca == null ? cb : ca;
    boolean and = op == Opcodes.IAND;
    int k = and ? m.not().getLowestSetBit() : m.getLowestSetBit();
    if (k < 1 || k > 16 || x.lo() == null || x.hi() == null || x.lo().signum() < 0 || x.hi().bitLength() > 16) return null;
    java.util.Map<T, BigInteger> pt = fs.point();
    BigInteger v = pt == null ? x.lo() : x.c;
    if (pt != null)
      for (int i = 0; i < x.atoms.length; i++) {
        BigInteger w = pt.get(x.atoms[i]);
        if (w == null) return null;
        v = v.add(x.coef[i].multiply(w));
      }
    BigInteger p = v.shiftRight(k).shiftLeft(k);
    if (!fs.entailsGe(x.sub(Lin.of(p))) || !fs.entailsGe(Lin.of(p.add(Terms.pow2(k)).subtract(BigInteger.ONE)).sub(x))) return null;
    BigInteger q = and ? p.and(m) : op == Opcodes.IOR ? p.or(m) : p.xor(m);
    return x.add(Lin.of(q.subtract(p)));
  }

  static boolean isBool(Lin l) {
    BigInteger lo = l.lo(), hi = l.hi();
    return lo != null && hi != null && lo.signum() >= 0 && hi.compareTo(BigInteger.ONE) <= 0;
  }

  // ---- statics -------------------------------------------------------------------------------

  void ensureInit(String cls) {
    if (statics.containsKey(cls) || !prog.isRepo(cls) || !initRunning.add(cls)) return;
    ClassNode cn = prog.classes.get(cls);
    if (cn.superName != null) ensureInit(cn.superName);
    List<Map<String, Val>> alts = new ArrayList<>();
    Map<String, Val> base = new LinkedHashMap<>();
    for (FieldNode fn : cn.fields)
      if ((fn.access & Opcodes.ACC_STATIC) != 0) {
        Val v = zero(fn.desc);
        if (fn.value instanceof Integer) v = Lin.of((Integer) fn.value);
        else if (fn.value instanceof Long) v = Lin.of((Long) fn.value);
        else if (fn.value instanceof Float) v = new DblV((Float) fn.value, true);
        else if (fn.value instanceof Double) v = new DblV((Double) fn.value, false);
        else if (fn.value instanceof String) v = TextV.str((String) fn.value);
        base.put(fn.name, v);
      }
    statics.put(cls, Collections.singletonList(base));
    Prog.M m = prog.declared(cls, "<clinit>", "()V");
    if (m != null) {
      clinitDepth++;
      ArrayDeque<String> saved = new ArrayDeque<>(callStack);
      callStack.clear();
      long savedSteps = steps;
      steps = 0;
      try {
        State st = new State();
        List<Out> outs = exec(m, Collections.emptyList(), st);
        initOutcomes.put(cls, outs);
        for (Out o : outs) {
          if (o.thrown) continue;
          Map<Integer, Integer> map = new HashMap<>();
          for (Integer id : o.st.heap.keySet()) if (id > 0) map.put(id, nextStatic--);
          for (Map.Entry<Integer, HObj> e : o.st.heap.entrySet()) {
            int nid = e.getKey() > 0 ? map.get(e.getKey()) : e.getKey();
            staticHeap.put(nid, remap(e.getValue(), map));
          }
          Map<String, Val> vals = new LinkedHashMap<>(base);
          for (Map.Entry<String, Val> e : o.st.statics.entrySet()) {
            int d = e.getKey().lastIndexOf('.');
            if (e.getKey().substring(0, d).equals(cls)) vals.put(e.getKey().substring(d + 1), remap(e.getValue(), map));
          }
          if (!alts.contains(vals)) alts.add(vals);
        }
        if (alts.isEmpty()) throw new Undecided("class initialiser of " + cls + " never completes");
        statics.put(cls, alts);
      } catch (Undecided e) {
        initFailures.put(cls, e.getMessage());
        Map<String, Val> vals = new LinkedHashMap<>(base);
        for (FieldNode fn : cn.fields)
          if ((fn.access & Opcodes.ACC_STATIC) != 0 && fn.value == null)
            vals.put(fn.name, mk(fn.desc, T.of("?static:" + cls + "." + fn.name, fn.desc)));
        statics.put(cls, Collections.singletonList(vals));
      } finally {
        clinitDepth--;
        steps = savedSteps;
        callStack.clear();
        callStack.addAll(saved);
      }
    }
    initRunning.remove(cls);
  }

  final Map<String, String> initFailures = new TreeMap<>();
  final Map<String, List<Out>> initOutcomes = new HashMap<>();

  /** Does some version of the platform have the method? Unknown classes count as having it. */
  boolean exists(String cls, String name, String desc) {
    if (cls.equals(Models.SB) && name.equals("repeat")) return desc.equals("(II)L" + cls + ";") || desc.equals("(Ljava/lang/CharSequence;I)L" + cls + ";");
    Class<?> c = Prog.jdk(cls);
    if (c == null) return true;
    boolean named = false;
    for (java.lang.reflect.Method m : c.getMethods()) {
      if (!m.getName().equals(name)) continue;
      named = true;
      if (Type.getMethodDescriptor(m).equals(desc)) return true;
    }
    return !named;
  }

  static Val remap(Val v, Map<Integer, Integer> m) {
    if (v instanceof ObjV) {
      Integer n = m.get(((ObjV) v).id);
      return n == null ? v : new ObjV(n);
    }
    if (v instanceof LamV) {
      LamV l = (LamV) v;
      List<Val> c = new ArrayList<>();
      for (Val x : l.captured) c.add(remap(x, m));
      return new LamV(l.iface, l.sam, l.samDesc, l.impl, c);
    }
    return v;
  }

  @SuppressWarnings("unchecked")
  static HObj remap(HObj h, Map<Integer, Integer> m) {
    Map<String, Val> f = new LinkedHashMap<>();
    for (Map.Entry<String, Val> e : h.fields.entrySet()) f.put(e.getKey(), remap(e.getValue(), m));
    Object d = h.data;
    if (d instanceof List && !((List<?>) d).isEmpty() && ((List<?>) d).get(0) instanceof Val) {
      List<Val> l = new ArrayList<>();
      for (Val v : (List<Val>) d) l.add(remap(v, m));
      d = l;
    } else if (d instanceof Map) {
      Map<Val, Lin> s = new LinkedHashMap<>();
      for (Map.Entry<Val, Lin> e : ((Map<Val, Lin>) d).entrySet()) s.put(remap(e.getKey(), m), e.getValue());
      d = s;
    }
    return new HObj(h.cls, f, d, h.len);
  }

  private List<Fr> getStatic(Cfg g, Fr f, FieldInsnNode fi) {
    boolean wide = Type.getType(fi.desc).getSize() == 2;
    String owner = fi.owner;
    Val v = f.st.statics.get(owner + "." + fi.name);
    if (v == null && prog.isRepo(owner)) {
      // field may be inherited
      String c = owner;
      while (prog.isRepo(c)) {
        ensureInit(c);
        boolean has = false;
        for (FieldNode fn : prog.classes.get(c).fields) has |= fn.name.equals(fi.name);
        if (has) break;
        String next = null;
        for (String i : prog.classes.get(c).interfaces) if (prog.isRepo(i)) for (FieldNode fn : prog.classes.get(i).fields) if (fn.name.equals(fi.name)) next = i;
        c = next != null ? next : prog.classes.get(c).superName;
      }
      List<Map<String, Val>> alts = statics.get(c);
      if (alts == null) throw new Undecided("static " + owner + "." + fi.name);
      if (fi.name.equals("$assertionsDisabled")) v = Lin.ONE;
      else if (alts.size() == 1) v = alts.get(0).get(fi.name);
      else {
        Integer ch = f.st.choices.get(c);
        if (ch != null) v = alts.get(ch).get(fi.name);
        else {
          List<Fr> r = new ArrayList<>();
          for (int i = 0; i < alts.size(); i++) {
            Fr n = f.fork();
            n.st.choices.put(c, i);
            Val x = alts.get(i).get(fi.name);
            if (wide) n.pushW(x);
            else n.push(x);
            n.pc++;
            r.add(n);
          }
          return r;
        }
      }
      if (v == null) throw new Undecided("static " + owner + "." + fi.name);
    }
    if (v == null) v = models.jdkStatic(owner, fi.name, fi.desc);
    if (wide) f.pushW(v);
    else f.push(v);
    return one(f);
  }

  // ---- calls ---------------------------------------------------------------------------------

  /** A value to be handed to a functional interface, boxed or unboxed to the wanted type. */
  Val adapt(State st, Val v, Type from, Type to) {
    boolean pf = from.getSort() < Type.ARRAY, pt = to.getSort() < Type.ARRAY;
    if (pf == pt) return v;
    if (pf) return models.box(from.getDescriptor(), v);
    return models.unbox(st, v, to.getDescriptor());
  }

  List<Out> callLambda(State st, LamV l, List<Val> args, String where) {
    Handle h = l.impl;
    List<Val> a = new ArrayList<>(l.captured);
    a.addAll(args);
    int tag = h.getTag();
    Type[] pt = Type.getArgumentTypes(h.getDesc());
    List<Type> want = new ArrayList<>();
    if (tag == Opcodes.H_INVOKEVIRTUAL || tag == Opcodes.H_INVOKEINTERFACE || tag == Opcodes.H_INVOKESPECIAL) want.add(Type.getObjectType(h.getOwner()));
    want.addAll(Arrays.asList(pt));
    Type[] sam = Type.getArgumentTypes(l.samDesc);
    int off = l.captured.size();
    for (int i = off; i < a.size() && i < want.size(); i++) {
      int si = i - off;
      if (si < sam.length) a.set(i, adaptDyn(st, a.get(i), sam[si], want.get(i)));
    }
    List<Out> outs;
    if (tag == Opcodes.H_NEWINVOKESPECIAL) {
      Val o = st.alloc(models.fresh(h.getOwner()));
      a.add(0, o);
      outs = new ArrayList<>();
      for (Out x : invoke(st, Opcodes.INVOKESPECIAL, h.getOwner(), "<init>", h.getDesc(), a, where)) outs.add(x.thrown ? x : new Out(x.st, o, false));
    } else {
      int op = tag == Opcodes.H_INVOKESTATIC ? Opcodes.INVOKESTATIC : tag == Opcodes.H_INVOKEINTERFACE ? Opcodes.INVOKEINTERFACE : tag == Opcodes.H_INVOKESPECIAL ? Opcodes.INVOKESPECIAL : Opcodes.INVOKEVIRTUAL;
      outs = invoke(st, op, h.getOwner(), h.getName(), h.getDesc(), a, where);
    }
    Type ret = Type.getReturnType(h.getDesc()), sret = Type.getReturnType(l.samDesc);
    if (tag == Opcodes.H_NEWINVOKESPECIAL) ret = Type.getObjectType(h.getOwner());
    List<Out> r = new ArrayList<>();
    for (Out o : outs) r.add(o.thrown || sret.getSort() == Type.VOID ? o : new Out(o.st, adaptDyn(o.st, o.val, ret, sret), false));
    return r;
  }

  private Val adaptDyn(State st, Val v, Type from, Type to) {
    if (from.getSort() == Type.VOID || to.getSort() == Type.VOID) return v;
    return adapt(st, v, from, to);
  }

  List<Out> invoke(State st, int op, String owner, String name, String desc, List<Val> args, String where) {
    for (Hook h : hooks) {
      List<Out> r = h.call(this, st, owner, name, desc, args, where);
      if (r != null) return r;
    }
    boolean isStatic = op == Opcodes.INVOKESTATIC;
    for (int i = 0; i < args.size(); i++) {
      if (i == 0 && op == Opcodes.INVOKESPECIAL && name.equals("<init>")) continue;
      Val d = models.deref(st, args.get(i));
      if (d != args.get(i)) {
        args = new ArrayList<>(args);
        args.set(i, d);
      }
    }
    if (!isStatic) {
      Val recv = args.get(0);
      if (nullness(st, recv) == 2) return Collections.singletonList(raise(st, "java/lang/NullPointerException", where));
    }
    List<Out> mr = models.call(st, op, owner, name, desc, args, where);
    if (mr != null) return mr;
    if (isStatic) {
      if (prog.isRepo(owner)) {
        Prog.M m = prog.declared(owner, name, desc);
        if (m == null) m = findStatic(owner, name, desc);
        if (m != null) return exec(m, args, st);
      }
      Prog.M d = prog.functional(owner, name, desc);
      if (d != null) return exec(d, args, st);
      return models.unknown(st, owner, name, desc, args, true, where);
    }
    Val recv = args.get(0);
    if (op == Opcodes.INVOKESPECIAL) {
      if (prog.isRepo(owner)) {
        Prog.M m = prog.resolve(owner, name, desc);
        if (m == null) m = prog.declared(owner, name, desc);
        if (m != null) return exec(m, args, st);
        // inherited from a JDK class
        String c = owner;
        while (prog.isRepo(c)) c = prog.classes.get(c).superName;
        mr = models.call(st, op, c, name, desc, args, where);
        if (mr != null) return mr;
      }
      return models.unknown(st, owner, name, desc, args, false, where);
    }
    if (recv instanceof LamV) {
      LamV l = (LamV) recv;
      if (l.sam.equals(name)) return callLambda(st, l, args.subList(1, args.size()), where);
      if (prog.isRepo(l.iface)) {
        Prog.M m = prog.resolve(l.iface, name, desc);
        if (m != null) return exec(m, args, st);
      }
      Prog.M d = prog.functional(owner, name, desc);
      if (d != null) return exec(d, args, st);
      return models.unknown(st, owner, name, desc, args, false, where);
    }
    HObj h = obj(st, recv);
    if (h != null && prog.isRepo(h.cls)) {
      Prog.M m = prog.resolve(h.cls, name, desc);
      if (m != null) return exec(m, args, st);
      String c = h.cls;
      while (prog.isRepo(c)) c = prog.classes.get(c).superName;
      mr = models.call(st, op, c, name, desc, args, where);
      if (mr != null) return mr;
      Prog.M d = prog.functional(owner, name, desc);
      if (d != null) return exec(d, args, st);
      return models.unknown(st, owner, name, desc, args, false, where);
    }
    if (recv instanceof T) {
      String c = classOf(st, recv);
      if (prog.isRepo(c) || prog.isRepo(owner)) {
        String k = prog.isRepo(c) ? c : owner;
        Prog.M m = prog.resolve(k, name, desc);
        if (m != null && (prog.isFinal(k) || !prog.overriddenBelow(k, m)) && !models.keepAbstract(k, name)) return exec(m, args, st);
      }
    }
    return models.unknown(st, owner, name, desc, args, false, where);
  }

  private Prog.M findStatic(String owner, String name, String desc) {
    for (String c = owner; c != null && prog.isRepo(c); c = prog.classes.get(c).superName) {
      Prog.M m = prog.declared(c, name, desc);
      if (m != null) return m;
    }
    return null;
  }

  // ---- loops ---------------------------------------------------------------------------------

  private Res loop(Cfg g, Fr entry, int h) {
    return new Loops(this, g, entry, h).solve();
  }

  boolean inClinit() {
    return clinitDepth > 0;
  }
}
