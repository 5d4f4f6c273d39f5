package fpv;

import java.math.BigInteger;
import java.util.*;
import org.objectweb.asm.Opcodes;

/** java.time, java.util.Date and java.util.Calendar as functions with the failures they document. */
final class TimeModel {
  static final String DTF = "java/time/format/DateTimeFormatter", INSTANT = "java/time/Instant", LINSTANT = "Ljava/time/Instant;";
  private static final String DTE = "java/time/DateTimeException", LZDT = "Ljava/time/ZonedDateTime;";
  private static final String LDTF = "L" + DTF + ";", LTA = "Ljava/time/temporal/TemporalAccessor;", LZONE = "Ljava/time/ZoneId;";
  private static final BigInteger MIN_SECOND = BigInteger.valueOf(-31557014167219200L), MAX_SECOND = BigInteger.valueOf(31556889864403199L);

  /** Temporal types that carry no instant. */
  static final Set<String> LOCAL = new HashSet<>(Arrays.asList("java/time/LocalDate", "java/time/LocalDateTime", "java/time/LocalTime", "java/time/OffsetTime", "java/time/Year", "java/time/YearMonth", "java/time/MonthDay"));

  static List<Out> call(Models m, State st, int op, String owner, String name, String desc, List<Val> a, String where) {
    boolean time = owner.startsWith("java/time/");
    if (!time && !owner.equals("java/util/Date") && !owner.equals("java/util/Calendar")) return null;
    Interp in = m.in;
    String key = owner.substring(owner.lastIndexOf('/') + 1) + "." + name + desc;
    if (op == Opcodes.INVOKESTATIC) {
      switch (key) {
        case "Instant.ofEpochMilli(J)" + LINSTANT:
          return Out.ret(st, ofMilli(a.get(0)));
        case "Instant.ofEpochSecond(J)" + LINSTANT:
          {
            Lin v = Interp.lin(a.get(0));
            return check(m, st, where, DTE, T.of("Instant.ofEpochSecond", LINSTANT, v), v.sub(Lin.of(MIN_SECOND)), Lin.of(MAX_SECOND).sub(v));
          }
        case "Instant.from(" + LTA + ")" + LINSTANT:
          {
            String c = in.classOf(st, a.get(0));
            if (INSTANT.equals(c)) return Out.ret(st, a.get(0));
            T r = T.of("Instant.from", LINSTANT, a.get(0));
            if (c != null && LOCAL.contains(c)) return Collections.singletonList(in.raise(st, DTE, where));
            if ("java/time/ZonedDateTime".equals(c) || "java/time/OffsetDateTime".equals(c)) return Out.ret(st, r);
            return may(m, st, where, DTE, Terms.bool("hasInstant", a.get(0)), r);
          }
        case "ZonedDateTime.ofInstant(" + LINSTANT + LZONE + ")" + LZDT:
          return atZone(m, st, a.get(0), a.get(1), where);
        case "ZoneId.of(Ljava/lang/String;)" + LZONE:
          {
            String id = a.get(0) instanceof TextV ? Seg.asLit(((TextV) a.get(0)).segs) : null;
            if ("UTC".equals(id) || "GMT".equals(id) || "Z".equals(id)) return Out.ret(st, T.of("zone " + id, LZONE));
            break;
          }
        case "ZoneId.systemDefault()" + LZONE:
          return Out.ret(st, T.of("systemZone", LZONE));
        default:
      }
      if (owner.equals(DTF)) return null;
    } else {
      switch (key) {
        case "DateTimeFormatter.format(" + LTA + ")Ljava/lang/String;":
          return format(m, st, a.get(0), a.get(1), where);
        case "DateTimeFormatter.formatTo(" + LTA + "Ljava/lang/Appendable;)V":
          {
            HObj h = in.obj(st, a.get(2));
            if (!Models.isText(h)) throw new Undecided("formatTo " + a.get(2));
            List<Out> r = new ArrayList<>();
            for (Out o : format(m, st, a.get(0), a.get(1), where)) {
              if (!o.thrown) in.put(o.st, a.get(2), in.obj(o.st, a.get(2)).withData(Seg.concat(in.obj(o.st, a.get(2)).text(), m.textOf(o.st, o.val))));
              r.add(o.thrown ? o : new Out(o.st, null, false));
            }
            return r;
          }
        case "DateTimeFormatter.withZone(" + LZONE + ")" + LDTF:
          return Out.ret(st, T.of("withZone", LDTF, a.get(0), a.get(1)));
        case "Instant.atZone(" + LZONE + ")" + LZDT:
          return atZone(m, st, a.get(0), a.get(1), where);
        case "Instant.toEpochMilli()J":
          {
            T i = (T) a.get(0);
            if (i.fn.equals("Instant.ofEpochMilli")) return Out.ret(st, i.args.get(0));
            return may(m, st, where, "java/lang/ArithmeticException", Terms.bool("fitsMillis", i), Lin.of(T.of(".toEpochMilli", "J", i)));
          }
        case "Date.toInstant()" + LINSTANT:
          return may(m, st, where, "java/lang/UnsupportedOperationException", Terms.bool("hasInstant", a.get(0)), T.of(".toInstant", LINSTANT, a.get(0)));
        case "Calendar.toInstant()" + LINSTANT:
          return Out.ret(st, ofMilli(Lin.of(T.of(".getTimeInMillis", "J", a.get(0)))));
        case "Instant.getEpochSecond()J":
        case "Instant.getNano()I":
        case "Date.getTime()J":
        case "Calendar.getTimeInMillis()J":
        case "Calendar.getTime()Ljava/util/Date;":
          return null;
        default:
          if (time && desc.equals("(" + LDTF + ")Ljava/lang/String;") && name.equals("format")) return format(m, st, a.get(1), a.get(0), where);
          if (name.equals("toString") || name.equals("hashCode") || name.equals("equals") || name.equals("getClass")) return null;
      }
    }
    // anything else of these packages is a value nothing is known about
    org.objectweb.asm.Type rt = org.objectweb.asm.Type.getReturnType(desc);
    if (rt.getSort() == org.objectweb.asm.Type.VOID) throw new Undecided(key);
    if (m.conversions && op != Opcodes.INVOKESTATIC && a.size() == 1 && name.startsWith("to") && rt.getSort() == org.objectweb.asm.Type.OBJECT && !rt.getInternalName().equals(owner) && m.in.prog.isFinal(owner) && m.in.prog.isFinal(rt.getInternalName()))
      return Out.ret(st, T.of("." + name, rt.getDescriptor(), a));
    in.unmodelled.add(key);
    return Out.ret(st, in.mk(rt.getDescriptor(), T.of("?" + owner.substring(owner.lastIndexOf('/') + 1) + "." + name, rt.getDescriptor(), a)));
  }

  static T ofMilli(Val v) {
    return T.of("Instant.ofEpochMilli", LINSTANT, v);
  }

  /** An instant in a zone; only instants next to the ends of the time-line have no local date there. */
  static List<Out> atZone(Models m, State st, Val i, Val zone, String where) {
    T z = T.of("atZone", LZDT, i, zone);
    if (i instanceof T && (((T) i).fn.equals("Instant.ofEpochMilli") || ((T) i).fn.equals("Instant.ofEpochSecond") && st.facts.entailsGe(Lin.of(BigInteger.valueOf(1L << 40)).sub((Lin) ((T) i).args.get(0))) && st.facts.entailsGe((Lin) ((T) i).args.get(0))))
      return Out.ret(st, z);
    return may(m, st, where, DTE, Terms.bool("hasLocal", i, zone), z);
  }

  static List<Out> format(Models m, State st, Val f, Val x, String where) {
    if (f instanceof T && ((T) f).fn.equals("withZone") && INSTANT.equals(m.in.classOf(st, x))) {
      List<Out> r = new ArrayList<>();
      for (Out o : atZone(m, st, x, ((T) f).args.get(1), where)) {
        if (o.thrown) r.add(o);
        else r.addAll(format(m, o.st, ((T) f).args.get(0), o.val, where));
      }
      return r;
    }
    Val text = new TextV(Seg.whole(T.of("formatted", Models.STR, f, x)), false);
    if (f instanceof T && ((T) f).args.isEmpty() && total(((T) f).fn, m.in.classOf(st, x))) return Out.ret(st, text);
    Lin ok = Terms.bool("formats", f, x);
    return may(m, st, where, DTE, ok, text);
  }

  /** The ISO formatter prints every value of the type. */
  private static boolean total(String formatter, String cls) {
    boolean zoned = "java/time/ZonedDateTime".equals(cls) || "java/time/OffsetDateTime".equals(cls), local = "java/time/LocalDateTime".equals(cls);
    switch (formatter) {
      case "DateTimeFormatter.ISO_OFFSET_DATE_TIME":
        return zoned;
      case "DateTimeFormatter.ISO_LOCAL_DATE_TIME":
        return zoned || local;
      case "DateTimeFormatter.ISO_LOCAL_DATE":
        return zoned || local || "java/time/LocalDate".equals(cls);
      default:
        return false;
    }
  }

  private static List<Out> may(Models m, State st, String where, String error, Lin ok, Val v) {
    List<Out> r = new ArrayList<>();
    State bad = st.withEq(ok), good = st.withEq(ok.add(-1));
    if (bad != null) r.add(m.in.raise(bad, error, where));
    if (good != null) r.add(new Out(good, v, false));
    return r;
  }

  private static List<Out> check(Models m, State st, String where, String error, Val v, Lin low, Lin high) {
    List<Out> r = new ArrayList<>();
    State a = st.withGe(low.neg().add(-1)), b = st.withGe(high.neg().add(-1)), good = st.withGe(low);
    good = good == null ? null : good.withGe(high);
    if (a != null) r.add(m.in.raise(a, error, where));
    if (b != null) r.add(m.in.raise(b, error, where));
    if (good != null) r.add(new Out(good, v, false));
    return r;
  }

  private TimeModel() {}
}
