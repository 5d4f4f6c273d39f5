package fpv;

import java.io.IOException;
import java.math.BigInteger;
import java.nio.file.*;
import java.util.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;

/**
 * The digits of doubles. The conversion and the JDK 21 reference are brought to the same kind of
 * guarded normal form and compared case by case; the tables are compared with their definitions.
 */
final class R14 extends Rule {
  @Override
  String explain() {
    return "The conversion of a double to a decimal, and the rounding and layout of that decimal, are abstractly interpreted for "
        + "all finite doubles and all precisions, giving a partition of the inputs with a normal form of the result on each cell; "
        + "the same is done with the JDK 21 classes kept in lib/jdk21. On every pair of cells that can meet, the normal forms must "
        + "agree. A difference counts only when both sides are built from the same operations, so that it lies in a constant, a sign, "
        + "a comparison or the choice of an alternative. Every constant table of longs in the program is recognised by what it "
        + "mostly holds and each entry is compared with the mathematical definition. The wiring from the wrapper of a double to the "
        + "conversion is interpreted as well.";
  }

  private static final String IN = Spec.P + "util/internal/", REF = "fpvref/", D2D = "DoubleToDecimal", FPD = "FormattedFPDecimal", WRAP = Spec.P + "number/DoubleWrapper", LAYOUT = Spec.P + "number/FloatLayout";

  @Override
  void run() {
    for (String c : new String[] {IN + D2D, IN + FPD, WRAP}) if (!prog.isRepo(c)) throw new AnchorMissing(c);
    Set<String> own = new TreeSet<>(prog.classes.keySet());
    try {
      reference();
    } catch (IOException e) {
      throw new Undecided("reference classes: " + e);
    }
    for (String c : own) if (prog.declared(c, "<clinit>", "()V") != null) attempt("table", c, () -> tables(c));
    attempt("decimal", "all finite doubles", this::decimal);
    for (char form : "efg".toCharArray()) attempt("layout", "%" + form, () -> layout(form));
    for (char form : "efg".toCharArray()) attempt("wiring", "%" + form, () -> wiring(form));
  }

  // ---- the reference -------------------------------------------------------------------------

  private void reference() throws IOException {
    Path dir = Paths.get(System.getProperty("fpv.ref", "lib/jdk21"));
    for (String n : new String[] {D2D, FPD, "MathUtils"}) {
      ClassNode cn = new ClassNode();
      new ClassReader(Files.readAllBytes(dir.resolve(n + ".class"))).accept(cn, ClassReader.SKIP_FRAMES);
      move(cn);
      prog.classes.put(cn.name, cn);
      for (MethodNode mn : cn.methods) prog.methods.put(cn.name + "." + mn.name + mn.desc, new Prog.M(cn, mn));
    }
  }

  private static String ref(String s) {
    return s == null ? null : s.replace("jdk/internal/math/", REF);
  }

  private static void move(ClassNode cn) {
    cn.name = ref(cn.name);
    for (FieldNode f : cn.fields) f.desc = ref(f.desc);
    for (MethodNode m : cn.methods) {
      m.desc = ref(m.desc);
      for (AbstractInsnNode i : m.instructions) {
        if (i instanceof MethodInsnNode) {
          MethodInsnNode x = (MethodInsnNode) i;
          x.owner = ref(x.owner);
          x.desc = ref(x.desc);
        } else if (i instanceof FieldInsnNode) {
          FieldInsnNode x = (FieldInsnNode) i;
          x.owner = ref(x.owner);
          x.desc = ref(x.desc);
        } else if (i instanceof TypeInsnNode) ((TypeInsnNode) i).desc = ref(((TypeInsnNode) i).desc);
      }
    }
  }

  // ---- case by case comparison ---------------------------------------------------------------

  /** One cell: what holds on it, and the named results, each a number or a text; null when it throws. */
  private static final class Cell {
    final Out out;
    final Map<String, Val> vals;

    Cell(Out out, Map<String, Val> vals) {
      this.out = out;
      this.vals = vals;
    }
  }

  /** Names of operations, without constants, signs and order. */
  private static void words(Val v, Set<String> out) {
    if (v instanceof T) {
      T t = (T) v;
      out.add(shape(t));
      for (Val a : t.args) words(a, out);
    } else if (v instanceof Lin) {
      for (T t : ((Lin) v).atoms) words(t, out);
    } else if (v instanceof TextV) {
      for (Seg s : ((TextV) v).segs) {
        if (s.k == Seg.K.SUB) {
          words(s.base, out);
          words(s.from, out);
          words(s.to, out);
        } else if (s.k == Seg.K.RUN) {
          words(s.ch, out);
          words(s.n, out);
        }
      }
    }
  }

  private static String shape(Val v) {
    if (v instanceof T) {
      T t = (T) v;
      String fn = t.fn;
      if (fn.startsWith("TABLE:")) fn = "table";
      else if (fn.startsWith("shr") || fn.startsWith("ushr") || fn.startsWith("shl")) fn = "shift";
      else if (fn.startsWith("and") || fn.startsWith("or") || fn.startsWith("xor")) fn = "bits";
      StringBuilder sb = new StringBuilder(fn).append('(');
      for (Val a : t.args) sb.append(shape(a)).append(',');
      return sb.append(')').toString();
    }
    if (v instanceof Lin) {
      TreeSet<String> s = new TreeSet<>();
      for (T t : ((Lin) v).atoms) s.add(shape(t));
      return s.toString();
    }
    if (v instanceof TextV) {
      StringBuilder sb = new StringBuilder();
      for (Seg s : ((TextV) v).segs) sb.append(s.k).append(s.k == Seg.K.SUB ? shape(s.base) : "");
      return sb.toString();
    }
    return "";
  }

  private static Set<String> words(List<Cell> cells) {
    Set<String> r = new TreeSet<>();
    for (Cell c : cells) {
      for (Val v : c.vals.values()) words(v, r);
      for (Lin[] ls : new Lin[][] {c.out.st.facts.ge, c.out.st.facts.eq, c.out.st.facts.ne}) for (Lin l : ls) words(l, r);
    }
    return r;
  }

  private void match(Interp in, String rule, String inst, List<Cell> own, List<Cell> ref, Iterable<Map<String, BigInteger>> points) {
    Set<String> a = words(own), b = words(ref);
    boolean same = a.equals(b), reported = false;
    Set<String> extra = new TreeSet<>(a);
    extra.removeAll(b);
    Set<String> miss = new TreeSet<>(b);
    miss.removeAll(a);
    rep.extra.put("cells " + inst, own.size() + " x " + ref.size());
    String open = null;
    for (Cell x : own)
      for (Cell y : ref) {
        Facts f = x.out.st.facts.and(y.out.st.facts);
        if (f == null || !compatible(x.out.st, y.out.st)) continue;
        if (x.out.thrown && y.out.thrown) continue;
        String bad = null;
        if (x.out.thrown) bad = throwsText(in, x.out);
        else if (y.out.thrown) bad = null;
        else
          for (String k : y.vals.keySet()) {
            String d = differ(x.vals.get(k), y.vals.get(k), f);
            if (d != null) bad = k + ": " + d;
          }
        if (bad == null) {
          rep.proved(rule, inst);
          continue;
        }
        if (open != null && (!same || x.out.st.lossy) || Cong.find(f, 30).impossible) continue;
        if (same && !x.out.st.lossy) {
          rep.refuted(rule, inst, where(x.out), cut(bad), "case: " + cut("" + f));
          return;
        }
        open = cut(bad);
      }
    if (open == null) return;
    // other operations: tell different functions from different ways to write one
    Fold fold = new Fold(TABLES, LOOPS);
    int known = 0;
    for (Map<String, BigInteger> p : points) {
      fold.reset();
      fold.vars.clear();
      fold.vars.putAll(p);
      Cell x = at(fold, own), y = x == null ? null : at(fold, ref);
      if (y == null || y.out.thrown || x.out.st.lossy) continue;
      if (x.out.thrown) {
        rep.refuted(rule, inst, where(x.out), throwsText(in, x.out), "for example: " + p);
        return;
      }
      known++;
      for (String k : y.vals.keySet()) {
        Object u = fold(fold, x.vals.get(k)), v = fold(fold, y.vals.get(k));
        if (u == null || v == null || u.equals(v)) continue;
        rep.refuted(rule, inst, where(x.out), k + " is " + u + " instead of " + v, "for example: " + p, "normal form: " + cut("" + x.vals.get(k)));
        return;
      }
    }
    rep.undecided(rule, inst, (same ? "" : "[other operations " + cut("" + extra + " / " + miss) + ", no difference at " + known + " points] ") + open);
  }

  /** The only cell a point lies in, null when unknown. */
  private static Cell at(Fold fold, List<Cell> cells) {
    Cell r = null;
    for (Cell c : cells) {
      Boolean h = fold.holds(c.out.st.facts);
      if (h == null || h && r != null) return null;
      if (h) r = c;
    }
    return r;
  }

  private static Object fold(Fold fold, Val v) {
    if (v instanceof NullV) return "none";
    if (v instanceof TextV) {
      String s = fold.text(((TextV) v).segs);
      return s == null ? null : "\"" + s + "\"";
    }
    return v == null ? null : fold.num(v);
  }

  private static final Map<String, List<BigInteger>> TABLES = new HashMap<>();
  private static final Map<String, String> LOOPS = new HashMap<>();

  /** Significands at the borders of every binary exponent. */
  private static List<Map<String, BigInteger>> doubles() {
    long max = (1L << 52) - 1;
    long[] ts = {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 1L << 51, (1L << 51) + 1, max, max - 1, max - 2, max / 3, max / 5, max / 7 * 3, 1234567890123L, 4111111111111111L};
    List<Long> all = new ArrayList<>();
    for (int k = -30; k <= 60; k++)
      for (int d = 1; d <= 9; d++) for (int u = -1; u <= 1; u++) all.add(Double.doubleToRawLongBits(Double.parseDouble(d + "e" + k)) + u);
    for (int bq = 0; bq < 2047; bq++) for (long t : ts) all.add((long) bq << 52 | t);
    List<Map<String, BigInteger>> r = new ArrayList<>();
    for (long b : all) {
      Map<String, BigInteger> m = new TreeMap<>();
      m.put("bits", BigInteger.valueOf(b));
      m.put("dclass", BigInteger.valueOf(b == 0 ? 1 : 2));
      r.add(m);
    }
    return r;
  }

  /** Digits at the borders of rounding, for all lengths, places of the point and precisions of interest. */
  private static List<Map<String, BigInteger>> decimals(boolean zero) {
    List<Map<String, BigInteger>> r = new ArrayList<>();
    int[] tops = {-330, -101, -100, -99, -98, -10, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 5, 6, 7, 8, 17, 20, 99, 100, 101, 102, 300}, precs = {0, 1, 2, 3, 5, 6, 7, 10, 15, 16, 17, 20};
    for (int n = zero ? 0 : 1; n <= 17; n++) {
      Set<BigInteger> fs = new TreeSet<>();
      BigInteger p = n == 0 ? BigInteger.ZERO : BigInteger.TEN.pow(n - 1), q = BigInteger.TEN.pow(n);
      for (String s : new String[] {"1", "5", "15", "25", "45", "49", "55", "95", "949", "995", "9949", "9995", "12345678901234567", "99999999999999995", "50000000000000001", "49999999999999999", "25000000000000000", "35000000000000000"}) fs.add(new BigInteger((s + "00000000000000000").substring(0, n).isEmpty() ? "0" : (s + "00000000000000000").substring(0, n)));
      fs.add(q.subtract(BigInteger.ONE));
      for (BigInteger f : fs) {
        if (f.compareTo(p) < 0) continue;
        for (int top : n == 0 ? new int[] {0} : tops)
          for (int prec : precs) {
            Map<String, BigInteger> m = new TreeMap<>();
            m.put("f", f);
            m.put("e", BigInteger.valueOf(top - n));
            m.put("n", BigInteger.valueOf(n));
            m.put("prec", BigInteger.valueOf(prec));
            r.add(m);
          }
      }
    }
    return r;
  }

  /** How the two results differ; null when they are the same. */
  private static String differ(Val x, Val y, Facts f) {
    if (x == null || y == null) return x == y ? null : "one is missing";
    if (x instanceof NullV || y instanceof NullV) return x instanceof NullV && y instanceof NullV ? null : (x instanceof NullV ? "none" : "present") + " instead of " + (y instanceof NullV ? "none" : "present");
    if (x instanceof Lin && y instanceof Lin) {
      Facts g = SegCmp.congruence(x, y, f);
      return g == null || g.entailsEq(((Lin) x).sub((Lin) y)) ? null : x + " instead of " + y;
    }
    if (x instanceof TextV && y instanceof TextV) {
      SegCmp.R r = SegCmp.compare(((TextV) x).segs, ((TextV) y).segs, f);
      return r.verdict == SegCmp.EQ ? null : Seg.show(((TextV) x).segs) + " instead of " + Seg.show(((TextV) y).segs);
    }
    return x.equals(y) ? null : x + " instead of " + y;
  }

  // ---- double to decimal ---------------------------------------------------------------------

  private static final T V = T.of("v", "D");

  private static List<Out> product(Interp in, State st, String owner, String name, String desc, List<Val> args, String where) {
    if (!name.equals("multiplyHigh") || !desc.equals("(JJ)J") || !(owner.equals(IN + "MultiplyHigh") || owner.equals("java/lang/Math"))) return null;
    Lin x = (Lin) args.get(0), y = (Lin) args.get(1);
    if (x.isConst() || !y.isConst() && x.toString().compareTo(y.toString()) > 0) {
      Lin t = x;
      x = y;
      y = t;
    }
    return Out.ret(st, Lin.of(T.of("multiplyHigh", "J", x, y)));
  }

  private void decimal() {
    match(interp(false), "decimal", "all finite doubles", decimal(IN), decimal(REF), doubles());
  }

  private List<Cell> decimal(String pkg) {
    Interp in = interp(false);
    in.hooks.add(R14::product);
    in.models.wholeTables = true;
    in.models.tableName = R14::tableName;
    in.joinLimit = 500;
    in.partWraps = false;
    List<Cell> r = new ArrayList<>();
    State st = new State();
    in.ensureInit(pkg + FPD);
    Val fd = st.alloc(in.models.fresh(pkg + FPD));
    st = positive(in, st);
    for (Out o : new Spec(in).call(st, pkg + D2D, "split", "(DL" + pkg + FPD + ";)V", V, fd)) {
      Map<String, Val> m = new TreeMap<>();
      HObj h = in.obj(o.st, fd);
      for (String n : new String[] {"f", "e", "n"}) {
        boolean declared = false;
        for (FieldNode x : prog.classes.get(pkg + FPD).fields) declared |= x.name.equals(n);
        if (!declared) throw new Undecided("no field " + n + " in " + h.cls);
        m.put(n, h.fields.getOrDefault(n, Lin.ZERO));
      }
      r.add(new Cell(o, m));
    }
    done(in);
    return r;
  }

  /** v is finite and its sign bit is clear. */
  private static State positive(Interp in, State st) {
    for (Out o : Dbl.test(st, V, Dbl.FINITE, Lin.ONE, Lin.ZERO))
      if (o.val.equals(Lin.ONE))
        for (Out p : Dbl.test(o.st, V, Dbl.SIGN, Lin.ONE, Lin.ZERO)) if (p.val.equals(Lin.ZERO)) return p.st;
    throw new Undecided("positive");
  }

  // ---- decimal to characters -----------------------------------------------------------------

  private static final Lin F = Lin.of(T.of("f", "#", BigInteger.ZERO, BigInteger.TEN.pow(17))), E = Lin.of(T.of("e", "#", BigInteger.valueOf(-400), BigInteger.valueOf(400))), N = Lin.of(T.of("n", "#", BigInteger.ZERO, BigInteger.valueOf(17))), PREC = Lin.of(T.of("prec", "#", BigInteger.ZERO, BigInteger.valueOf(Spec.MAX)));

  private List<Out> split(Interp in, State st, String owner, String name, String desc, List<Val> args, String where) {
    if (!name.equals("split") || !owner.endsWith("/" + D2D)) return null;
    Val fd = args.get(1);
    in.put(st, fd, in.obj(st, fd).with("f", F).with("e", E).with("n", N));
    return Out.ret(st, null);
  }

  /** A method with a loop that fills the array of its object is named by its code. */
  private List<Out> loop(Interp in, State st, String owner, String name, String desc, List<Val> args, String where) {
    if (!owner.equals(IN + FPD) && !owner.equals(REF + FPD)) return null;
    Prog.M m = prog.declared(owner, name, desc);
    if (m == null || m.isStatic() || !loops(m) || stores(m)) return null;
    Val self = args.get(0);
    HObj h = in.obj(st, self);
    String code = "loop:" + Integer.toHexString(code(m, new HashSet<>()).hashCode());
    if (owner.startsWith(REF)) LOOPS.put(code, name.equals("fillWithDigits") ? "digits" : "zeros");
    List<Val> a = new ArrayList<>(args.subList(1, args.size()));
    for (String field : h.fields.keySet()) {
      HObj arr = in.obj(st, h.fields.get(field));
      if (arr == null || !arr.cls.equals("[C") || !touches(m, field)) continue;
      a.add(0, new TextV(arr.text(), false));
      T t = T.of(code, Models.STR, a);
      Lin len = Seg.len(arr.text());
      if (!st.assumeEq(Terms.len(t).sub(len))) return Collections.emptyList();
      in.put(st, h.fields.get(field), arr.withData(Seg.whole(t)));
      a.remove(0);
    }
    String ret = Type.getReturnType(desc).getDescriptor();
    if (ret.equals("V")) return Out.ret(st, null);
    return Out.ret(st, in.mk(ret, T.of(code + ":result", ret, a)));
  }

  private static boolean touches(Prog.M m, String field) {
    for (AbstractInsnNode i : m.node.instructions) if (i instanceof FieldInsnNode && ((FieldInsnNode) i).name.equals(field)) return true;
    return false;
  }

  /** Does more than fill an array: assigns fields or calls on the object. */
  private static boolean stores(Prog.M m) {
    for (AbstractInsnNode i : m.node.instructions) {
      if (i.getOpcode() == Opcodes.PUTFIELD || i.getOpcode() == Opcodes.PUTSTATIC) return true;
      if (i instanceof MethodInsnNode && i.getOpcode() != Opcodes.INVOKESTATIC) return true;
    }
    return false;
  }

  private static boolean loops(Prog.M m) {
    InsnList l = m.node.instructions;
    for (AbstractInsnNode i : l) if (i instanceof JumpInsnNode && l.indexOf(((JumpInsnNode) i).label) < l.indexOf(i)) return true;
    return false;
  }

  private String code(Prog.M m, Set<String> open) {
    if (!open.add(m.id())) return "rec";
    StringBuilder sb = new StringBuilder();
    Map<LabelNode, Integer> labels = new HashMap<>();
    Set<LabelNode> used = new HashSet<>();
    for (AbstractInsnNode i : m.node.instructions) if (i instanceof JumpInsnNode) used.add(((JumpInsnNode) i).label);
    for (AbstractInsnNode i : m.node.instructions) if (i instanceof LabelNode && used.contains(i)) labels.put((LabelNode) i, labels.size());
    for (AbstractInsnNode i : m.node.instructions) {
      if (i instanceof LabelNode) {
        if (labels.containsKey(i)) sb.append('L').append(labels.get(i)).append(':');
        continue;
      }
      if (i.getOpcode() < 0) continue;
      if (i instanceof MethodInsnNode) {
        MethodInsnNode x = (MethodInsnNode) i;
        Prog.M t = prog.declared(x.owner, x.name, x.desc);
        sb.append("call ").append(t == null ? x.owner + x.name + x.desc : "{" + code(t, open) + "}");
      } else {
        sb.append(i.getOpcode());
        if (i instanceof VarInsnNode) sb.append(' ').append(((VarInsnNode) i).var);
        else if (i instanceof IincInsnNode) sb.append(' ').append(((IincInsnNode) i).var).append(' ').append(((IincInsnNode) i).incr);
        else if (i instanceof IntInsnNode) sb.append(' ').append(((IntInsnNode) i).operand);
        else if (i instanceof LdcInsnNode) sb.append(' ').append(((LdcInsnNode) i).cst);
        else if (i instanceof FieldInsnNode) sb.append(' ').append(((FieldInsnNode) i).name);
        else if (i instanceof JumpInsnNode) sb.append(' ').append(labels.get(((JumpInsnNode) i).label));
      }
      sb.append(';');
    }
    open.remove(m.id());
    return sb.toString();
  }

  private void layout(char form) {
    match(interp(false), "layout", "%" + form, layout(IN, form), layout(REF, form), decimals(form == 'f'));
  }

  private List<Cell> layout(String pkg, char form) {
    Interp in = interp(false);
    boolean[] hit = {false};
    in.hooks.add((i, st, owner, name, desc, args, where) -> {
      List<Out> r = split(i, st, owner, name, desc, args, where);
      hit[0] |= r != null;
      return r;
    });
    in.hooks.add(this::loop);
    in.models.tableName = R14::tableName;
    List<Cell> r = new ArrayList<>();
    State st = new State();
    if (form != 'f' && !st.assumeGe(F.add(-1))) throw new Undecided("zero");
    List<State> starts = new ArrayList<>();
    State zero = st.withEq(F);
    if (zero != null && (zero = zero.withEq(N)) != null && (zero = zero.withEq(E)) != null) starts.add(zero);
    State pos = st.withGe(F.add(-1));
    if (pos != null && (pos = pos.withGe(N.add(-1))) != null) starts.add(pos);
    for (State s : starts)
      for (Out o : new Spec(in).call(s, pkg + FPD, "valueOf", "(DIC)L" + pkg + FPD + ";", V, form == 'g' ? PREC.add(0) : PREC, Lin.of(form))) {
        if (form == 'g' && !o.st.assumeGe(PREC.add(-1))) continue;
        Map<String, Val> m = new TreeMap<>();
        if (!o.thrown) {
          m.put("mantissa", chars(in, o, pkg, "getMantissa"));
          m.put("exponent", chars(in, o, pkg, "getExponent"));
        }
        r.add(new Cell(o, m));
      }
    if (!hit[0]) throw new Undecided("split is not called");
    done(in);
    return r;
  }

  private Val chars(Interp in, Out o, String pkg, String getter) {
    Out c = new Spec(in).only(new Spec(in).call(o.st, pkg + FPD, getter, "()[C", o.val), getter);
    if (in.nullness(c.st, c.val) == 2) return NullV.NULL;
    HObj h = in.obj(c.st, c.val);
    if (h == null) throw new Undecided(getter);
    return new TextV(h.text(), false);
  }

  // ---- from the wrapper to the conversion ----------------------------------------------------

  private static T piece(String name, char form, Facts f) {
    return T.of(name + ":" + form, Models.STR, T.of("dabs", "D", V), digits(form, PREC, f));
  }

  /** A decimal has at most 17 digits, so e is the same for all precisions from 16 on. */
  private static Val digits(char form, Val p, Facts f) {
    return form == 'e' && p instanceof Lin && f.entailsGe(((Lin) p).add(-16)) ? Lin.of(16) : p;
  }

  private void wiring(char form) {
    Interp in = interp(true);
    String inst = "%" + form, lay = "L" + LAYOUT + ";", name = form == 'e' ? "scientificLayout" : form == 'f' ? "decimalLayout" : "generalLayout";
    boolean[] hit = {false};
    in.hooks.add((i, st, owner, n, desc, args, where) -> {
      if (!owner.equals(IN + FPD)) return null;
      if (n.equals("valueOf") && desc.startsWith("(DIC)")) {
        hit[0] = true;
        return Out.ret(st, st.alloc(new HObj(IN + FPD, Collections.emptyMap(), null, null).with("v", args.get(0)).with("p", args.get(1)).with("c", args.get(2))));
      }
      if (!n.equals("getMantissa") && !n.equals("getExponent")) return null;
      HObj h = i.obj(st, args.get(0));
      Val c = h.fields.get("c");
      if (!(c instanceof Lin) || !((Lin) c).isConst()) throw new Undecided("form " + c);
      char k = (char) ((Lin) c).c.intValue();
      List<Out> r = new ArrayList<>();
      boolean mant = n.equals("getMantissa");
      T t = T.of((mant ? "MANT:" : "EXP:") + k, Models.STR, h.fields.get("v"), digits(k, h.fields.get("p"), st.facts));
      State some = k == 'f' && !mant ? null : st, none = mant || k == 'e' ? null : st;
      if (some != null && none != null) {
        Lin b = Terms.bool("scientific", h.fields.get("v"), h.fields.get("p"));
        some = st.withEq(b.add(-1));
        none = st.withEq(b);
      }
      if (some != null) r.add(new Out(some, some.alloc(new HObj("[C", Collections.emptyMap(), Seg.whole(t), Terms.len(t))), false));
      if (none != null) r.add(new Out(none, NullV.NULL, false));
      return r;
    });
    State st = new State();
    for (Facts f : Dbl.in(st.facts, V, Dbl.FINITE)) {
      State s = st.fork();
      s.facts = f;
      Spec sp = new Spec(in);
      Val w = sp.make(s, WRAP, "(D)V", V);
      State t = form == 'g' ? s.withGe(PREC.add(-1)) : s;
      for (Out o : sp.call(t, WRAP, name, "(I)" + lay, w, PREC)) {
        if (o.thrown) {
          verdict("wiring", inst, o, o.st.facts, false, throwsText(in, o));
          continue;
        }
        for (boolean zero : new boolean[] {true, false}) {
          Set<Integer> cs = new TreeSet<>(Dbl.FINITE);
          if (zero) cs.retainAll(Dbl.ZERO);
          else cs.removeAll(Dbl.ZERO);
          for (Facts g : Dbl.in(o.st.facts, V, cs)) part(in, inst, form, o, g, zero);
        }
      }
    }
    if (!hit[0]) throw new Undecided("the conversion is not called");
    done(in);
  }

  private void part(Interp in, String inst, char form, Out o, Facts g, boolean zero) {
    for (String n : new String[] {"getMantissa", "getExponent"}) {
      boolean mant = n.equals("getMantissa");
      List<Out> r = in.invoke(o.st, Opcodes.INVOKEVIRTUAL, LAYOUT, n, "()" + Spec.LSEQ, Collections.singletonList(o.val), n);
      if (r.size() != 1 || r.get(0).thrown) throw new Undecided(n);
      Val v = r.get(0).val;
      boolean none = v instanceof NullV;
      List<Seg> got = none ? null : in.models.textOf(o.st, v);
      if (!none && got == null) throw new Undecided(n + " " + v);
      Facts h = g;
      boolean absent = !mant && (form == 'f' || form == 'g' && zero);
      List<Seg> want = zero && form != 'f' ? Seg.lit(mant ? "0" : "+00") : Seg.whole(piece(mant ? "MANT" : "EXP", form, g));
      if (form == 'g' && !mant && !zero) {
        Lin b = Terms.bool("scientific", T.of("dabs", "D", V), PREC);
        absent = none;
        h = g.andEq(none ? b : b.add(-1));
        Facts other = g.andEq(none ? b.add(-1) : b);
        if (other != null) verdict("wiring", inst, o, other, false, none ? "the exponent is dropped" : "an exponent that the conversion did not give");
        if (h == null) continue;
      }
      if (none != absent) verdict("wiring", inst, o, h, false, n + (none ? " gives none" : " gives " + Seg.show(got)));
      else if (none) rep.proved("wiring", inst);
      else text("wiring", inst, o, h, got, want);
    }
  }

  // ---- tables --------------------------------------------------------------------------------

  /** A family of tables: the mathematically defined entry at an index, null outside. */
  private interface Family {
    BigInteger at(int i);
  }

  /** g = floor(beta) + 1 for 10^-k = beta 2^r with 2^125 <= beta < 2^126. */
  static BigInteger g(int k) {
    BigInteger num = k < 0 ? BigInteger.TEN.pow(-k) : BigInteger.ONE, den = k < 0 ? BigInteger.ONE : BigInteger.TEN.pow(k);
    int r = num.bitLength() - den.bitLength() - 125;
    while (true) {
      BigInteger n = r < 0 ? num.shiftLeft(-r) : num, d = r < 0 ? den : den.shiftLeft(r);
      BigInteger b = n.divide(d);
      if (b.bitLength() == 126) return b.add(BigInteger.ONE);
      r += b.bitLength() > 126 ? 1 : -1;
    }
  }

  private static final Map<Integer, BigInteger> G = new HashMap<>();

  private static BigInteger high(int k) {
    return G.computeIfAbsent(k, R14::g).shiftRight(63);
  }

  private static BigInteger low(int k) {
    return G.computeIfAbsent(k, R14::g).and(BigInteger.ONE.shiftLeft(63).subtract(BigInteger.ONE));
  }

  private static Map<String, Family> families() {
    Map<String, Family> m = new LinkedHashMap<>();
    for (int b : new int[] {10, 5, 2, 100, 1000, 16}) {
      BigInteger base = BigInteger.valueOf(b);
      for (int from : new int[] {0, 1}) m.put("powers of " + b + " from " + from, i -> base.pow(i + from));
    }
    m.put("powers of ten from the largest", null);
    for (int min : new int[] {-324, -292, 0}) {
      for (int dir : new int[] {1, -1}) {
        m.put("interleaved halves of g from " + min + (dir > 0 ? " up" : " down"), i -> i % 2 == 0 ? high(min + dir * (i / 2)) : low(min + dir * (i / 2)));
        m.put("low half first of g from " + min + (dir > 0 ? " up" : " down"), i -> i % 2 == 1 ? high(min + dir * (i / 2)) : low(min + dir * (i / 2)));
        m.put("high halves of g from " + min + (dir > 0 ? " up" : " down"), i -> high(min + dir * i));
        m.put("low halves of g from " + min + (dir > 0 ? " up" : " down"), i -> low(min + dir * i));
      }
    }
    m.remove("powers of ten from the largest");
    return m;
  }

  private static final Map<String, Family> FAMILIES = families();

  /** The family most entries belong to, null when there is none. */
  private static String family(List<BigInteger> l) {
    if (l.size() < 6) return null;
    for (Map.Entry<String, Family> e : FAMILIES.entrySet()) {
      int ok = 0, bad = 0;
      for (int i = 0; i < l.size() && bad * 5 <= l.size(); i++)
        if (e.getValue().at(i).equals(l.get(i))) ok++;
        else bad++;
      if (ok * 5 >= l.size() * 4) return e.getKey();
    }
    return null;
  }

  private static List<BigInteger> numbers(List<Val> l) {
    List<BigInteger> r = new ArrayList<>();
    for (Val v : l) {
      if (!(v instanceof Lin) || !((Lin) v).isConst()) return null;
      r.add(((Lin) v).c);
    }
    return r;
  }

  private static final Map<List<Val>, String> NAMES = new HashMap<>();

  /** The same name for all correct tables of a family, whatever their length. */
  private static String tableName(List<Val> l) {
    String name = familyName(l);
    List<BigInteger> n = numbers(l);
    if (n != null) TABLES.merge("TABLE:" + (!name.isEmpty() ? name : Integer.toHexString(l.hashCode()) + ":" + l.size()), n, (x, y) -> x.size() >= y.size() ? x : y);
    return name;
  }

  private static String familyName(List<Val> l) {
    return NAMES.computeIfAbsent(l, x -> {
      List<BigInteger> n = numbers(l);
      String f = n == null ? null : family(n);
      if (f == null) return "";
      for (int i = 0; i < n.size(); i++) if (!FAMILIES.get(f).at(i).equals(n.get(i))) return "";
      return f;
    });
  }

  private void tables(String cls) {
    Interp in = interp(false);
    in.ensureInit(cls);
    List<Map<String, Val>> alts = in.statics.get(cls);
    if (alts == null) return;
    for (Map<String, Val> m : alts)
      for (Map.Entry<String, Val> e : m.entrySet()) {
        if (!(e.getValue() instanceof ObjV)) continue;
        HObj h = in.obj(new State(), e.getValue());
        if (e.getKey().startsWith("$")) continue;
        if (h == null || !h.cls.equals("[J") && !h.cls.equals("[I") || !(h.data instanceof List)) continue;
        String inst = cls + "." + e.getKey();
        List<BigInteger> n = numbers(h.list());
        String f = n == null ? null : family(n);
        if (f == null) {
          rep.undecided("table", inst, "no known family of numbers");
          continue;
        }
        rep.extra.put("table " + inst, f + ", " + n.size() + " entries");
        for (int i = 0; i < n.size(); i++)
          if (FAMILIES.get(f).at(i).equals(n.get(i))) rep.proved("table", inst);
          else rep.refuted("table", inst, cls, "entry " + i + " of the " + f + " is " + n.get(i) + " instead of " + FAMILIES.get(f).at(i));
      }
    done(in);
  }
}
