package fpv;

import java.util.*;
import org.objectweb.asm.Opcodes;

/** The pointer conversion: whose class and identity it prints. */
final class R22 extends Rule {
  @Override
  String explain() {
    return "%p is abstractly interpreted behind every entry point of Args, with the real traits and conversion function, on an "
        + "arbitrary object of every supported class and of unknown class. The printed text must be the class name of that very "
        + "object, '@' and the lower-case hexadecimal digits of its identity hash, where identity is an uninterpreted function "
        + "of the object: the hash of a box, copy or wrapper made on the way is another term. Null must print 'null', and "
        + "primitives must be refused with the library's exception.";
  }

  private static final class Obj {
    final String name, method, desc;
    final T value;

    Obj(String name, String method, String desc, String cls) {
      this.name = name;
      this.method = method;
      this.desc = desc;
      this.value = T.of("object", cls);
    }
  }

  @Override
  void run() {
    limit = 20;
    List<Obj> objects = new ArrayList<>();
    for (Entry.Kind k : Entry.KINDS) {
      String cls = k.prim() ? "L" + k.box + ";" : k == Entry.DATE ? "Ljava/time/ZonedDateTime;" : k.putDesc;
      objects.add(new Obj(k.name, k.orNull, k.orNullDesc, cls));
      if (k.prim()) attempt("primitive", k.name, () -> primitive(k));
    }
    objects.add(new Obj("text", "putCharSequence", "Ljava/lang/CharSequence;", "Ljava/lang/CharSequence;"));
    objects.add(new Obj("temporal", "putDateTime", "Ljava/time/temporal/TemporalAccessor;", "Ljava/time/temporal/TemporalAccessor;"));
    for (String c : new String[] {"Ljava/lang/Object;", "Ljava/util/Date;", "Ljava/lang/Number;", "[I", "[B", "[Ljava/lang/Object;", "Ljava/time/LocalDate;", "Ljava/time/Instant;", "Ljava/util/Calendar;"})
      objects.add(new Obj(org.objectweb.asm.Type.getType(c).getClassName(), "put", "Ljava/lang/Object;", c));
    for (Obj o : objects)
      {
        attempt("identity", o.name + " through " + o.method, () -> object(o, o.method, o.desc, false));
        if (!o.method.equals("put")) attempt("identity", o.name + " through put", () -> object(o, "put", "Ljava/lang/Object;", false));
        attempt("identity", o.name + " through of(...)", () -> object(o, "varargs", null, false));
        attempt("identity", o.name + " through of(iterable)", () -> object(o, "iterable", null, false));
        attempt("null", o.name + " through " + o.method, () -> object(o, o.method, o.desc, true));
      }
    Obj any = new Obj("null", "put", "Ljava/lang/Object;", "Ljava/lang/Object;");
    attempt("null", "through of(...)", () -> object(any, "varargs", null, true));
    attempt("null", "through of(iterable)", () -> object(any, "iterable", null, true));
    attempt("null", "through putNull", () -> object(any, "putNull", null, true));
  }

  private void primitive(Entry.Kind k) {
    Entry e = new Entry(interp(true));
    e.in.models.conversions = true;
    e.in.unrollFirst = true;
    for (Out a : e.give(new State(), "typed", k)) {
      if (a.thrown) {
        verdict("primitive", k.name, a, a.st.facts, false, throwsText(e.in, a) + " before anything is formatted");
        continue;
      }
      for (Out o : e.print(a, 'p', Fmt.noFlags(), Fmt.UNSET, Fmt.UNSET, NullV.NULL))
        verdict("primitive", k.name, o, o.st.facts, o.thrown && e.app.printfException(o), o.thrown ? throwsText(e.in, o) : "a primitive is identified: " + show(o));
    }
    done(e.in);
  }

  private static String show(Out o) {
    StringBuilder sb = new StringBuilder();
    for (Event x : Appenders.events(o, "ACCEPT")) sb.append(Seg.show(((TextV) x.args.get(0)).segs));
    return sb.toString();
  }

  private void object(Obj x, String way, String desc, boolean isNull) {
    String rule = isNull ? "null" : "identity", inst = x.name + " through " + way;
    Entry e = new Entry(interp(true));
    e.in.models.conversions = true;
    e.in.unrollFirst = true;
    State st = new State();
    Val v = isNull ? NullV.NULL : x.value;
    if (!isNull) st.refs.put(x.value, st.info(x.value).nonNull().plusNot(Spec.P + "traits/FormatTraits"));
    List<Out> lists;
    if (desc == null && !way.equals("putNull")) lists = e.of(st, way, Collections.singletonList(v));
    else {
      Out c = e.create(st);
      lists = way.equals("putNull") ? e.in.invoke(c.st, Opcodes.INVOKEINTERFACE, Entry.ARGS, "putNull", "()" + Entry.LARGS, Collections.singletonList(c.val), "entry point") : e.put(c.st, c.val, way, desc, v);
    }
    for (Out a : lists) {
      if (a.thrown) {
        verdict(rule, inst, a, a.st.facts, false, throwsText(e.in, a));
        continue;
      }
      Map<String, Lin> flags = Spec.symbolicFlags();
      for (Out o : e.print(a, 'p', flags, Fmt.UNSET, Spec.bounded("prec"), NullV.NULL)) {
        if (o.thrown) {
          verdict(rule, inst, o, o.st.facts, false, throwsText(e.in, o));
          continue;
        }
        List<Event> acc = Appenders.events(o, "ACCEPT");
        if (acc.size() != 1) {
          verdict(rule, inst, o, o.st.facts, false, acc.size() + " pieces of output");
          continue;
        }
        List<Seg> got = ((TextV) acc.get(0).args.get(0)).segs;
        if (isNull) text(rule, inst, o, o.st.facts, got, Seg.lit("null"));
        else
          for (Out w : want(e, o.st, x.value)) text(rule, inst, o, w.st.facts, got, ((TextV) w.val).segs);
      }
    }
    done(e.in);
  }

  /** The class name, '@' and the digits of the identity hash of the object. */
  private static List<Out> want(Entry e, State st, T obj) {
    Val cls = e.spec.only(e.in.models.call(st.fork(), Opcodes.INVOKEVIRTUAL, "java/lang/Object", "getClass", "()Ljava/lang/Class;", Collections.singletonList(obj), "rule"), "getClass").val;
    Out name = e.spec.only(e.in.invoke(st.fork(), Opcodes.INVOKEVIRTUAL, "java/lang/Class", "getName", "()Ljava/lang/String;", Collections.singletonList(cls), "rule"), "getName");
    List<Seg> head = Seg.concat(e.in.models.textOf(name.st, name.val), Seg.lit("@"));
    List<Out> r = new ArrayList<>();
    for (Out h : e.in.invoke(st.fork(), Opcodes.INVOKESTATIC, "java/lang/Integer", "toHexString", "(I)Ljava/lang/String;", Collections.singletonList(Lin.of(T.of("idhash", "I", obj))), "rule"))
      r.add(new Out(h.st, new TextV(Seg.concat(head, e.in.models.textOf(h.st, h.val)), false), false));
    return r;
  }
}
