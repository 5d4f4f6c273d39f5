package fpv;

import java.math.BigInteger;
import java.util.*;

/** Arguments added through the public entry points of Args and printed by a directive, all of it real code. */
final class Entry {
  static final String ARGS = Spec.P + "Args", LARGS = "L" + ARGS + ";";

  final Interp in;
  final Spec spec;
  final Appenders app;

  Entry(Interp in) {
    this.in = in;
    this.app = new Appenders(in);
    this.spec = app.spec;
    in.hooks.add(Entry::hook);
  }

  /** One kind of argument: the primitive and nullable methods that take it and its symbolic value. */
  static class Kind {
    final String name, put, putDesc, orNull, orNullDesc, box;
    final int bits;
    final Val value;

    Kind(String name, String put, String putDesc, String orNull, String orNullDesc, String box, int bits, Val value) {
      this.name = name;
      this.put = put;
      this.putDesc = putDesc;
      this.orNull = orNull;
      this.orNullDesc = orNullDesc;
      this.box = box;
      this.bits = bits;
      this.value = value;
    }

    /** The same kind with another value. */
    Kind other(String n) {
      Val v = value instanceof T ? T.of(n, ((T) value).desc) : value instanceof BigV ? new BigV(Lin.of(T.of(n, "#", (BigInteger) null, null))) : Lin.of(T.of(n, putDesc));
      return new Kind(name, put, putDesc, orNull, orNullDesc, box, bits, v);
    }

    boolean prim() {
      return putDesc.length() == 1;
    }

    /** The value as an object. */
    Val boxed() {
      return prim() ? new BoxV(box, value) : value;
    }
  }

  static final Kind BOOLEAN = prim("boolean", "Boolean", "Z", 1), CHAR = prim("char", "Character", "C", 16);
  static final Kind BYTE = prim("byte", "Byte", "B", 8), SHORT = prim("short", "Short", "S", 16), INT = prim("int", "Integer", "I", 32), LONG = prim("long", "Long", "J", 64);
  static final Kind FLOAT = new Kind("float", "putFloat", "F", "putFloatOrNull", "Ljava/lang/Float;", "java/lang/Float", 0, T.of("value", "F"));
  static final Kind DOUBLE = new Kind("double", "putDouble", "D", "putDoubleOrNull", "Ljava/lang/Double;", "java/lang/Double", 0, T.of("value", "D"));
  static final Kind BIG = new Kind("big integer", "putBigInteger", "Ljava/math/BigInteger;", "putBigInteger", "Ljava/math/BigInteger;", null, -1, new BigV(Lin.of(T.of("value", "#", (BigInteger) null, null))));
  static final Kind DECIMAL = new Kind("big decimal", "putBigDecimal", "Ljava/math/BigDecimal;", "putBigDecimal", "Ljava/math/BigDecimal;", null, 0, T.of("value", "Ljava/math/BigDecimal;"));
  static final Kind STRING = new Kind("string", "putString", "Ljava/lang/String;", "putCharSequence", "Ljava/lang/CharSequence;", null, 0, T.of("value", Models.STR));
  static final Kind DATE = new Kind("date", "putDateTime", "Ljava/time/temporal/TemporalAccessor;", "putDateTime", "Ljava/time/temporal/TemporalAccessor;", null, 0, T.of("value", "Ljava/time/ZonedDateTime;"));

  private static Kind prim(String name, String box, String d, int bits) {
    String n = name.substring(0, 1).toUpperCase(Locale.ROOT) + name.substring(1);
    return new Kind(name, "put" + n, d, "put" + n + "OrNull", "Ljava/lang/" + box + ";", "java/lang/" + box, bits, Lin.of(T.of("value", d)));
  }

  static final Kind[] KINDS = {BOOLEAN, CHAR, BYTE, SHORT, INT, LONG, FLOAT, DOUBLE, BIG, DECIMAL, STRING, DATE};
  static final Kind[] INTEGERS = {BYTE, SHORT, CHAR, INT, LONG, BIG};

  /** Fresh argument lists, one per way the factory can end. */
  Out create(State st) {
    return spec.only(spec.call(st, ARGS, "create", "()" + LARGS), "Args.create");
  }

  List<Out> put(State st, Val args, String name, String desc, Val v) {
    return in.invoke(st, org.objectweb.asm.Opcodes.INVOKEINTERFACE, ARGS, name, "(" + desc + ")" + LARGS, Arrays.asList(args, v), "entry point");
  }

  /** The value is an object of the class itself, not of a subclass that also is something else. */
  static State start(State st, Kind k) {
    if (!k.name.equals(DECIMAL.name)) return st;
    T t = (T) k.value;
    for (String c : new String[] {"java/lang/CharSequence", "java/time/temporal/TemporalAccessor", Spec.P + "traits/FormatTraits"}) st.refs.put(t, st.info(t).plusNot(c));
    return st;
  }

  /** The ways to give a value of the kind as the only argument; the result is the argument list. */
  static final String[] WAYS = {"typed", "nullable", "generic", "varargs", "iterable"};

  List<Out> give(State st, String way, Kind k) {
    start(st, k);
    switch (way) {
      case "typed":
        {
          Out c = create(st);
          return put(c.st, c.val, k.put, k.putDesc, k.value);
        }
      case "nullable":
        {
          Out c = create(st);
          return put(c.st, c.val, k.orNull, k.orNullDesc, k.boxed());
        }
      case "generic":
        {
          Out c = create(st);
          return put(c.st, c.val, "put", "Ljava/lang/Object;", k.boxed());
        }
      default:
        return of(st, way, Collections.singletonList(k.boxed()));
    }
  }

  /** The factories that take several values. */
  List<Out> of(State st, String way, List<Val> values) {
    if (way.equals("varargs")) return spec.call(st, ARGS, "of", "([Ljava/lang/Object;)" + LARGS, st.alloc(new HObj("[Ljava/lang/Object;", Collections.emptyMap(), new ArrayList<>(values), null)));
    Val list = st.alloc(new HObj("java/util/ArrayList", Collections.emptyMap(), new ArrayList<>(values), null));
    if (way.equals("any iterable")) list = st.alloc(new HObj("$Iterable").with("list", list));
    return spec.call(st, ARGS, "of", "(Ljava/lang/Iterable;)" + LARGS, list);
  }

  /** An iterable that is not a collection. */
  private static List<Out> hook(Interp in, State st, String owner, String name, String desc, List<Val> a, String where) {
    HObj h = a.isEmpty() ? null : in.obj(st, a.get(0));
    if (h == null || !h.cls.equals("$Iterable") || !owner.equals("java/lang/Iterable")) return null;
    if (!name.equals("iterator")) throw new Undecided("iterable method " + name);
    return in.invoke(st, org.objectweb.asm.Opcodes.INVOKEINTERFACE, "java/util/List", "iterator", "()Ljava/util/Iterator;", Collections.singletonList(h.fields.get("list")), where);
  }

  Val iterator(Out args) {
    List<Out> l = in.invoke(args.st, org.objectweb.asm.Opcodes.INVOKEINTERFACE, ARGS, "iterator", "()Ljava/util/Iterator;", Collections.singletonList(args.val), "iterator");
    Out o = spec.only(l, "Args.iterator");
    if (o.st != args.st) throw new Undecided("Args.iterator branches");
    return o.val;
  }

  /** Prints one directive on the argument list. */
  List<Out> print(Out args, char letter, Map<String, Lin> flags, Lin width, Lin prec, Val dtf) {
    Val it = iterator(args);
    List<Out> r = new ArrayList<>();
    for (Out c : spec.contexts(args.st, flags, width, prec, dtf))
      for (Out ap : spec.makeAll(c.st, Appenders.DEF, "(L" + Appenders.SPECIFIER + ";" + Spec.LCTX + ")V", app.specifier(letter), c.val)) r.addAll(app.run(ap.st, Appenders.DEF, ap.val, it));
    return r;
  }
}
