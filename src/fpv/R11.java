package fpv;

import java.util.*;
import org.objectweb.asm.Opcodes;

/** The ways of adding an argument against each other, and the argument list they build. */
final class R11 extends Rule {
  @Override
  String explain() {
    return "Every entry point of Args (typed, nullable, generic, varargs, iterable) is abstractly interpreted on an arbitrary "
        + "value of its type and the resulting argument is printed by every conversion, with the real traits, appender and "
        + "conversion functions. Whatever the generic method gives must be given by the others, for all flags, widths and "
        + "precisions; only %p of a primitive is exempt. Adding to a list must append exactly one argument, null must give the "
        + "null argument, and values() must list the added objects in order.";
  }

  private static final String LETTERS = "dioxXufFeEgGaAcsStTp";

  @Override
  void run() {
    limit = 20;
    for (Entry.Kind k : Entry.KINDS) {
      for (char c : LETTERS.toCharArray()) attempt("same-text", "%" + c + " of " + k.name, () -> same(k, c));
      attempt("same-text", "* of " + k.name, () -> star(k));
      for (String way : Entry.WAYS) {
        attempt("append-one", k.name + ", " + way, () -> appends(k, way, k.boxed()));
        if (!way.equals("typed") || !k.prim()) attempt("null-argument", k.name + ", " + way, () -> appends(k, way, NullV.NULL));
      }
    }
    attempt("null-argument", "putNull", this::putNull);
    attempt("null-argument", "of(null array)", this::nullArray);
    for (String way : new String[] {"varargs", "iterable", "any iterable"}) attempt("append-one", "several, " + way, () -> several(way));
  }

  private Entry entry() {
    Interp in = interp(true);
    in.unrollFirst = true;
    in.hooks.add(R11::floats);
    return new Entry(in);
  }

  /** The number wrapper of a floating value, as a function of the value. */
  static List<Out> floats(Interp in, State st, String owner, String name, String desc, List<Val> a, String where) {
    if (!owner.equals(Spec.P + "number/FloatForm") || !name.equals("valueOf") || a.size() != 1) return null;
    return Out.ret(st, T.of("FloatForm" + desc.substring(0, desc.indexOf(')') + 1), Fmt.FLT, in.models.deref(st, a.get(0))));
  }

  /** Prints the value given in every way and compares with the generic way. */
  private void same(Entry.Kind k, char letter) {
    Entry e = entry();
    boolean pointer = letter == 'p';
    List<Out> ref = print(e, "generic", k, letter);
    for (String way : Entry.WAYS) {
      if (way.equals("generic") || pointer && way.equals("typed") && k.prim()) continue;
      compare("same-text", "%" + letter + " of " + k.name + ", " + way, e.in, print(e, way, k, letter), ref);
    }
    done(e.in);
  }

  private List<Out> print(Entry e, String way, Entry.Kind k, char letter) {
    List<Out> r = new ArrayList<>();
    for (Out a : e.give(new State(), way, k)) {
      if (a.thrown) r.add(a);
      else r.addAll(e.print(a, letter, Fmt.noFlags(), Spec.bounded("width"), Spec.bounded("prec"), NullV.NULL));
    }
    return r;
  }

  /** The value as a width: what asInt gives. */
  private void star(Entry.Kind k) {
    Entry e = entry();
    List<Out> ref = null;
    for (String way : new String[] {"generic", "typed", "nullable", "varargs", "iterable"}) {
      List<Out> r = new ArrayList<>();
      for (Out a : e.give(new State(), way, k)) {
        if (a.thrown) {
          r.add(a);
          continue;
        }
        for (Out b : e.put(a.st, a.val, "putString", Models.STR, T.of("text", Models.STR)))
          if (!b.thrown) r.addAll(e.print(b, 's', Fmt.noFlags(), Appenders.PRECEDING, Fmt.UNSET, NullV.NULL));
      }
      if (ref == null) ref = r;
      else compare("same-text", "* of " + k.name + ", " + way, e.in, r, ref);
    }
    done(e.in);
  }

  private void compare(String rule, String inst, Interp in, List<Out> xs, List<Out> ys) {
    for (Out x : xs)
      for (Out y : ys) {
        if (!compatible(x.st, y.st)) continue;
        Facts f = x.st.facts.and(y.st.facts);
        if (f == null) continue;
        Out joint = y.st.lossy ? y : x;
        if (x.thrown != y.thrown) {
          verdict(rule, inst, joint, f, false, (x.thrown ? throwsText(in, x) : "no failure") + " instead of " + (y.thrown ? throwsText(in, y) : "a text"));
          continue;
        }
        if (x.thrown) {
          verdict(rule, inst, joint, f, exClass(in, x).equals(exClass(in, y)), throwsText(in, x) + " instead of " + throwsText(in, y));
          continue;
        }
        List<Event> a = Appenders.events(x, "ACCEPT"), b = Appenders.events(y, "ACCEPT");
        if (a.size() != b.size()) {
          verdict(rule, inst, joint, f, false, a.size() + " pieces of output instead of " + b.size());
          continue;
        }
        for (int i = 0; i < a.size(); i++) text(rule, inst, x, y.st.lossy, f, ((TextV) a.get(i).args.get(0)).segs, ((TextV) b.get(i).args.get(0)).segs);
      }
  }

  private static final T FIRST = T.of("first", Models.STR);

  /** A list that already has an argument gets one more, at the end. */
  private void appends(Entry.Kind k, String way, Val v) {
    Entry e = entry();
    String rule = v instanceof NullV ? "null-argument" : "append-one", inst = k.name + ", " + way;
    List<Out> lists = new ArrayList<>();
    List<Val> want = new ArrayList<>();
    Map<Out, Val> first = new IdentityHashMap<>();
    if (way.equals("varargs") || way.equals("iterable")) {
      lists.addAll(e.of(Entry.start(new State(), k), way, Collections.singletonList(v)));
    } else {
      want.add(FIRST);
      Out c = e.create(Entry.start(new State(), k));
      for (Out a : e.put(c.st, c.val, "putString", Models.STR, FIRST)) {
        if (a.thrown) lists.add(a);
        else {
          for (Out b : e.put(a.st, a.val, way.equals("typed") ? k.put : way.equals("nullable") ? k.orNull : "put", way.equals("typed") ? k.putDesc : way.equals("nullable") ? k.orNullDesc : "Ljava/lang/Object;", way.equals("typed") && !(v instanceof NullV) ? k.value : v)) {
            lists.add(b);
            first.put(b, c.val);
          }
        }
      }
    }
    want.add(v);
    for (Out l : lists) {
      if (l.thrown) {
        verdict(rule, inst, l, l.st.facts, false, throwsText(e.in, l));
        continue;
      }
      check(rule, inst, e, l, l.val, want);
      if (first.get(l) != null) check(rule, inst, e, l, first.get(l), want);
    }
    done(e.in);
  }

  private void putNull() {
    Entry e = entry();
    Out c = e.create(new State());
    for (Out o : e.in.invoke(c.st, Opcodes.INVOKEINTERFACE, Entry.ARGS, "putNull", "()" + Entry.LARGS, Collections.singletonList(c.val), "entry point"))
      check("null-argument", "putNull", e, o, o.val, Collections.singletonList(NullV.NULL));
    done(e.in);
  }

  private void nullArray() {
    Entry e = entry();
    for (Out o : e.spec.call(new State(), Entry.ARGS, "of", "([Ljava/lang/Object;)" + Entry.LARGS, NullV.NULL)) {
      if (o.thrown) verdict("null-argument", "of(null array)", o, o.st.facts, false, throwsText(e.in, o));
      else check("null-argument", "of(null array)", e, o, o.val, Collections.singletonList(NullV.NULL));
    }
    done(e.in);
  }

  private void several(String way) {
    Entry e = entry();
    List<Val> want = new ArrayList<>();
    want.add(FIRST);
    want.add(NullV.NULL);
    want.add(Entry.INT.boxed());
    want.add(Entry.LONG.boxed());
    want.add(FIRST);
    for (int n : new int[] {0, 1, 2, 5}) {
      String inst = n + " arguments, " + way;
      for (Out o : e.of(new State(), way, want.subList(0, n))) {
        if (o.thrown) verdict("append-one", inst, o, o.st.facts, false, throwsText(e.in, o));
        else check("append-one", inst, e, o, o.val, want.subList(0, n));
      }
    }
    done(e.in);
  }

  /** values() and the iterator of the list give the wanted objects. */
  private void check(String rule, String inst, Entry e, Out o, Val args, List<Val> want) {
    for (Out v : e.in.invoke(o.st.fork(), Opcodes.INVOKEINTERFACE, Entry.ARGS, "values", "()Ljava/util/List;", Collections.singletonList(args), "values")) {
      HObj h = v.thrown ? null : e.in.obj(v.st, v.val);
      if (v.thrown) verdict(rule, inst, v, v.st.facts, false, "values() " + throwsText(e.in, v));
      else if (!Models.isList(h) || h.list().contains(Models.REST)) rep.undecided(rule, inst, "values() gives " + v.val);
      else if (h.list().size() != want.size()) verdict(rule, inst, v, v.st.facts, false, "values() has " + h.list().size() + " elements instead of " + want.size());
      else
        for (int i = 0; i < want.size(); i++) object(rule, inst, e.in, v, h.list().get(i), want.get(i));
    }
    Out at = new Out(o.st.fork(), args, false);
    Val it = e.iterator(at);
    List<Out> todo = Collections.singletonList(at);
    for (int i = 0; i <= want.size(); i++) {
      List<Out> then = new ArrayList<>();
      for (Out x : todo)
        for (Out q : e.in.invoke(x.st, Opcodes.INVOKEINTERFACE, "java/util/Iterator", "hasNext", "()Z", Collections.singletonList(it), "hasNext")) {
          boolean more = q.st.facts.andEq((Lin) q.val) == null;
          if (more != (i < want.size())) verdict(rule, inst, q, q.st.facts, false, "the list ends " + (more ? "later" : "earlier") + " than after " + want.size() + " arguments");
          else if (more)
            for (Out n : e.in.invoke(q.st, Opcodes.INVOKEINTERFACE, "java/util/Iterator", "next", "()Ljava/lang/Object;", Collections.singletonList(it), "next"))
              for (Out b : e.in.invoke(n.st, Opcodes.INVOKEINTERFACE, Spec.P + "traits/FormatTraits", "isNull", "()Z", Collections.singletonList(n.val), "isNull")) {
                boolean nul = want.get(i) instanceof NullV;
                if (b.thrown) verdict(rule, inst, b, b.st.facts, false, throwsText(e.in, b));
                else equal(rule, inst, b, b.st.facts, (Lin) b.val, Lin.of(nul ? 1 : 0), "argument " + i + " is null");
                if (!b.thrown) then.add(b);
              }
          else rep.proved(rule, inst);
        }
      todo = then;
    }
  }

  private void object(String rule, String inst, Interp in, Out o, Val got, Val want) {
    if (got instanceof NullV && want instanceof NullV || got.equals(want)) {
      rep.proved(rule, inst);
      return;
    }
    if (got instanceof BoxV && want instanceof BoxV && ((BoxV) got).cls.equals(((BoxV) want).cls) && ((BoxV) got).v instanceof Lin) {
      equal(rule, inst, o, o.st.facts, (Lin) ((BoxV) got).v, (Lin) ((BoxV) want).v, "value read back");
      return;
    }
    boolean known = (got instanceof BoxV || got instanceof NullV || got instanceof T && !((T) got).opaque || got instanceof TextV) && !T.isOpaque(got);
    if (known) verdict(rule, inst, o, o.st.facts, false, "reads back " + got + " instead of " + want);
    else rep.undecided(rule, inst, "reads back " + got + " instead of " + want);
  }
}
