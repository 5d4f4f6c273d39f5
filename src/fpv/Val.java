package fpv;

import java.math.BigInteger;
import java.util.*;

/** Abstract values.  All of them are immutable and compared structurally. */
abstract class Val {}

/** The null reference. */
final class NullV extends Val {
  static final NullV NULL = new NullV();

  @Override
  public String toString() {
    return "null";
  }
}

/** A heap object known by its allocation; the state maps the id to its content. */
final class ObjV extends Val {
  final int id;

  ObjV(int id) {
    this.id = id;
  }

  @Override
  public boolean equals(Object o) {
    return o instanceof ObjV && ((ObjV) o).id == id;
  }

  @Override
  public int hashCode() {
    return id * 31 + 7;
  }

  @Override
  public String toString() {
    return "#" + id;
  }
}

/** Constant of type float or double. */
final class DblV extends Val {
  final double d;
  final boolean isFloat;

  DblV(double d, boolean isFloat) {
    this.d = d;
    this.isFloat = isFloat;
  }

  @Override
  public boolean equals(Object o) {
    return o instanceof DblV
        && Double.doubleToRawLongBits(((DblV) o).d) == Double.doubleToRawLongBits(d);
  }

  @Override
  public int hashCode() {
    return Double.hashCode(d);
  }

  @Override
  public String toString() {
    return d + (isFloat ? "f" : "");
  }
}

/** Class constant. */
final class ClsV extends Val {
  final String name; // internal name or array descriptor

  ClsV(String name) {
    this.name = name;
  }

  @Override
  public boolean equals(Object o) {
    return o instanceof ClsV && ((ClsV) o).name.equals(name);
  }

  @Override
  public int hashCode() {
    return name.hashCode();
  }

  @Override
  public String toString() {
    return "class " + name;
  }
}

/** Pending three-way comparison (lcmp, fcmp, dcmp) waiting for the branch that consumes it. */
final class CmpV extends Val {
  final Val a, b;
  final char kind; // 'J' long, 'D' double/float
  final boolean nanIsGreater;

  CmpV(Val a, Val b, char kind, boolean nanIsGreater) {
    this.a = a;
    this.b = b;
    this.kind = kind;
    this.nanIsGreater = nanIsGreater;
  }

  @Override
  public boolean equals(Object o) {
    return o instanceof CmpV
        && ((CmpV) o).a.equals(a)
        && ((CmpV) o).b.equals(b)
        && ((CmpV) o).kind == kind
        && ((CmpV) o).nanIsGreater == nanIsGreater;
  }

  @Override
  public int hashCode() {
    return Objects.hash(a, b, kind);
  }

  @Override
  public String toString() {
    return "cmp(" + a + "," + b + ")";
  }
}

/** A java.lang.String (seq=false) or a modelled library sequence (seq=true) with known layout. */
final class TextV extends Val {
  final List<Seg> segs;
  final boolean seq;

  TextV(List<Seg> segs, boolean seq) {
    this.segs = segs;
    this.seq = seq;
  }

  static TextV str(String s) {
    return new TextV(Seg.lit(s), false);
  }

  @Override
  public boolean equals(Object o) {
    return o instanceof TextV && ((TextV) o).seq == seq && ((TextV) o).segs.equals(segs);
  }

  @Override
  public int hashCode() {
    return segs.hashCode() + (seq ? 1 : 0);
  }

  @Override
  public String toString() {
    return Seg.show(segs);
  }
}

/** A boxed primitive created by the analysed code. */
final class BoxV extends Val {
  final String cls;
  final Val v;

  BoxV(String cls, Val v) {
    this.cls = cls;
    this.v = v;
  }

  @Override
  public boolean equals(Object o) {
    return o instanceof BoxV && ((BoxV) o).cls.equals(cls) && ((BoxV) o).v.equals(v);
  }

  @Override
  public int hashCode() {
    return cls.hashCode() * 31 + v.hashCode();
  }

  @Override
  public String toString() {
    return "box(" + v + ")";
  }
}

/** A BigInteger computed by the analysed code. */
final class BigV extends Val {
  final Lin v;

  BigV(Lin v) {
    this.v = v;
  }

  @Override
  public boolean equals(Object o) {
    return o instanceof BigV && ((BigV) o).v.equals(v);
  }

  @Override
  public int hashCode() {
    return v.hashCode() + 5;
  }

  @Override
  public String toString() {
    return "big(" + v + ")";
  }
}

/** A lambda or method reference. */
final class LamV extends Val {
  final String iface, sam, samDesc;
  final org.objectweb.asm.Handle impl;
  final List<Val> captured;

  LamV(String iface, String sam, String samDesc, org.objectweb.asm.Handle impl, List<Val> captured) {
    this.iface = iface;
    this.sam = sam;
    this.samDesc = samDesc;
    this.impl = impl;
    this.captured = captured;
  }

  @Override
  public boolean equals(Object o) {
    return o instanceof LamV
        && ((LamV) o).impl.equals(impl)
        && ((LamV) o).captured.equals(captured)
        && ((LamV) o).iface.equals(iface);
  }

  @Override
  public int hashCode() {
    return impl.hashCode() * 31 + captured.hashCode();
  }

  @Override
  public String toString() {
    return "lambda(" + impl.getOwner() + "." + impl.getName() + captured + ")";
  }
}

/**
 * Herbrand term: an input atom or an uninterpreted function applied to values. Interned, so identity
 * is equality.
 */
final class T extends Val implements Comparable<T> {
  private static final Map<List<Object>, T> POOL = new HashMap<>();
  private static int counter = 0;
  static final BigInteger INT_MIN = BigInteger.valueOf(Integer.MIN_VALUE),
      INT_MAX = BigInteger.valueOf(Integer.MAX_VALUE),
      LONG_MIN = BigInteger.valueOf(Long.MIN_VALUE),
      LONG_MAX = BigInteger.valueOf(Long.MAX_VALUE);

  final int id;
  final String fn;
  final List<Val> args;
  final String desc; // JVM descriptor of the value's type; "Z" unbounded integer uses "#"
  final BigInteger lo, hi; // numeric range, null = unbounded
  final boolean opaque; // contains a function without a model

  private T(int id, String fn, List<Val> args, String desc, BigInteger lo, BigInteger hi) {
    this.id = id;
    this.fn = fn;
    this.args = args;
    this.desc = desc;
    this.lo = lo;
    this.hi = hi;
    boolean op = fn.startsWith("?");
    for (Val a : args) op |= isOpaque(a);
    this.opaque = op;
  }

  static boolean isOpaque(Val v) {
    if (v instanceof T) return ((T) v).opaque;
    if (v instanceof Lin) {
      for (T t : ((Lin) v).atoms) if (t.opaque) return true;
      return false;
    }
    if (v instanceof TextV) {
      for (Seg s : ((TextV) v).segs) if (s.opaque()) return true;
      return false;
    }
    if (v instanceof BoxV) return isOpaque(((BoxV) v).v);
    if (v instanceof BigV) return isOpaque(((BigV) v).v);
    return false;
  }

  static synchronized T of(String fn, String desc, BigInteger lo, BigInteger hi, Val... args) {
    return of(fn, desc, lo, hi, Arrays.asList(args));
  }

  static synchronized T of(String fn, String desc, BigInteger lo, BigInteger hi, List<Val> args) {
    List<Object> key = new ArrayList<>(args.size() + 2);
    key.add(fn);
    key.add(desc);
    key.addAll(args);
    T t = POOL.get(key);
    if (t == null) {
      t = new T(counter++, fn, new ArrayList<>(args), desc, lo, hi);
      POOL.put(key, t);
    }
    return t;
  }

  /** Term with the natural range of its descriptor. */
  static T of(String fn, String desc, Val... args) {
    return of(fn, desc, Arrays.asList(args));
  }

  static T of(String fn, String desc, List<Val> args) {
    BigInteger lo = null, hi = null;
    switch (desc) {
      case "Z":
        lo = BigInteger.ZERO;
        hi = BigInteger.ONE;
        break;
      case "C":
        lo = BigInteger.ZERO;
        hi = BigInteger.valueOf(65535);
        break;
      case "B":
        lo = BigInteger.valueOf(-128);
        hi = BigInteger.valueOf(127);
        break;
      case "S":
        lo = BigInteger.valueOf(-32768);
        hi = BigInteger.valueOf(32767);
        break;
      case "I":
        lo = INT_MIN;
        hi = INT_MAX;
        break;
      case "J":
        lo = LONG_MIN;
        hi = LONG_MAX;
        break;
      default:
    }
    return of(fn, desc, lo, hi, args);
  }

  static T ranged(String fn, long lo, long hi, Val... args) {
    return of(fn, "I", BigInteger.valueOf(lo), BigInteger.valueOf(hi), args);
  }

  private static int fresh = 0;

  static synchronized String freshName(String base) {
    return base + "~" + (fresh++);
  }

  static boolean numeric(String desc) {
    return desc.length() == 1 && "ZCBSIJ#".contains(desc);
  }

  @Override
  public int compareTo(T o) {
    return Integer.compare(id, o.id);
  }

  @Override
  public int hashCode() {
    return id * 0x9E3779B1;
  }

  @Override
  public boolean equals(Object o) {
    return this == o;
  }

  @Override
  public String toString() {
    if (args.isEmpty()) return fn;
    StringBuilder sb = new StringBuilder(fn).append('(');
    for (int i = 0; i < args.size(); i++) {
      if (i > 0) sb.append(',');
      sb.append(args.get(i));
    }
    return sb.append(')').toString();
  }
}
