package fpv;

import java.util.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;

/** No facility that depends on the default locale, charset, line separator, zone or platform on the way to the output. */
final class R18 extends Rule {
  @Override
  String explain() {
    return "The call graph of the whole program (class hierarchy, method references, static initialisers) is searched from every "
        + "method of the public package for calls whose answer depends on the default locale, charset, line separator, time "
        + "zone, system properties or environment. Calls from which the method cannot return (they prepare an exception) do not "
        + "count, nor does what only date conversions reach: the callers of asTemporalAccessor and its implementations. A value kept "
        + "in a static field counts where the field is read.";
  }

  @Override
  void run() {
    Calls g = new Calls(prog);
    String api = Spec.P + "FastPrintf", args = Spec.P + "Args";
    if (!prog.isRepo(api) || !prog.isRepo(args)) throw new AnchorMissing(api);
    Set<Prog.M> date = new HashSet<>();
    for (Map.Entry<Prog.M, List<Calls.Site>> e : g.sites.entrySet()) {
      if (e.getKey().node.name.equals("asTemporalAccessor")) date.add(e.getKey());
      for (Calls.Site s : e.getValue()) if (s.name.equals("asTemporalAccessor")) date.add(e.getKey());
    }
    List<Prog.M> roots = new ArrayList<>();
    for (Prog.M m : g.sites.keySet()) {
      String c = m.cls.name;
      if (c.lastIndexOf('/') == Spec.P.length() - 1 && !m.node.name.equals("toString")) roots.add(m);
    }
    Map<Prog.M, Calls.Site> reached = g.reach(roots, s -> !s.failing && !throwable(s.owner), m -> !date.contains(m) && !throwable(m.cls.name));
    int calls = 0;
    for (Prog.M m : reached.keySet()) {
      rep.analysed.add(m.id());
      for (Calls.Site s : g.sites.get(m)) {
        if (s.failing) continue;
        calls++;
        String why = bad(g, s);
        if (why == null) {
          rep.proved("call", s.where() + " " + s);
          continue;
        }
        if (m.node.name.equals("<clinit>") && !read(g, reached, s)) continue;
        rep.refuted("call", s + " in " + m, s.where(), why, "reached by: " + Calls.path(reached, m));
      }
    }
    rep.extra.put("reachable_methods", reached.size());
    rep.extra.put("calls_judged", calls);
    rep.extra.put("date_conversions", date.toString());
  }

  private boolean throwable(String c) {
    return prog.isSub(c, "java/lang/Throwable");
  }

  /** Is a field set by the initialiser from here on read by anything that is not a date conversion? */
  private boolean read(Calls g, Map<Prog.M, Calls.Site> reached, Calls.Site s) {
    InsnList l = s.in.node.instructions;
    FieldInsnNode f = null;
    for (int i = s.index; i < l.size() && f == null; i++) if (l.get(i).getOpcode() == Opcodes.PUTSTATIC) f = (FieldInsnNode) l.get(i);
    if (f == null) return true;
    for (Prog.M m : reached.keySet())
      for (Calls.Site r : g.sites.get(m))
        if (r.insn.getOpcode() == Opcodes.GETSTATIC && r.owner.equals(f.owner) && r.name.equals(f.name) && !r.failing) return true;
    return false;
  }

  private String bad(Calls g, Calls.Site s) {
    if (s.insn instanceof FieldInsnNode) {
      if (s.owner.equals("java/io/File")) return "platform dependent constant";
      return null;
    }
    String o = s.owner, n = s.name, d = s.desc;
    if (o.startsWith("java/lang/invoke/MethodHandles") && n.startsWith("find")) return handle(s);
    return bad(o, n, d);
  }

  /** A method found by name: the class and name constants before the lookup. */
  private String handle(Calls.Site s) {
    InsnList l = s.in.node.instructions;
    String cls = null, name = null;
    for (int i = s.index - 1; i >= 0 && i > s.index - 40; i--) {
      AbstractInsnNode x = l.get(i);
      if (!(x instanceof LdcInsnNode)) continue;
      Object c = ((LdcInsnNode) x).cst;
      if (c instanceof String && name == null) name = (String) c;
      else if (c instanceof Type && name != null) {
        cls = ((Type) c).getInternalName();
        break;
      }
    }
    if (cls == null) return null;
    String why = bad(cls, name, null);
    return why == null ? null : cls + "." + name + " through a method handle: " + why;
  }

  private String bad(String o, String n, String d) {
    boolean any = d == null, locale = !any && d.contains("Ljava/util/Locale;"), charset = !any && (d.contains("Ljava/nio/charset/Charset;") || d.contains("Ljava/lang/String;)"));
    if (o.equals("java/lang/String")) {
      if ((n.equals("toUpperCase") || n.equals("toLowerCase")) && (any || d.startsWith("()"))) return "letters of the default locale";
      if ((n.equals("format") || n.equals("formatted")) && !locale) return "format of the default locale";
      if (n.equals("getBytes") && (any || d.equals("()[B"))) return "default charset";
      if (n.equals("<init>") && !any && d.startsWith("([B") && !d.contains("Charset") && !d.contains("Ljava/lang/String;") && !d.equals("([BI)V") && !d.equals("([BIII)V")) return "default charset";
      return null;
    }
    if (o.startsWith("java/text/") && !o.equals("java/text/CharacterIterator")) return "text facility of a locale";
    if (o.equals("java/util/Formatter") && n.equals("<init>") && !locale) return "format of the default locale";
    if ((n.equals("format") || n.equals("printf")) && (o.equals("java/io/PrintStream") || o.equals("java/io/PrintWriter")) && !locale) return "format of the default locale";
    if (n.equals("println") && (o.equals("java/io/PrintStream") || o.equals("java/io/PrintWriter"))) return "line separator of the platform";
    if (o.equals("java/io/BufferedWriter") && n.equals("newLine")) return "line separator of the platform";
    if (n.equals("<init>") && (o.equals("java/io/InputStreamReader") || o.equals("java/io/OutputStreamWriter") || o.equals("java/io/PrintStream") || o.equals("java/io/PrintWriter") && !any && d.startsWith("(Ljava/io/OutputStream;") || o.equals("java/io/FileReader") || o.equals("java/io/FileWriter")) && !charset) return "default charset";
    if (o.equals("java/io/ByteArrayOutputStream") && n.equals("toString") && (any || d.startsWith("()"))) return "default charset";
    if (o.equals("java/nio/charset/Charset") && n.equals("defaultCharset")) return "default charset";
    if (o.equals("java/util/Scanner")) return "default locale";
    if (o.equals("java/util/ResourceBundle")) return "default locale";
    if (o.equals("java/util/Locale") && (n.equals("getDefault") || n.startsWith("getDisplay"))) return "default locale";
    if (o.equals("java/util/Currency") && n.equals("getInstance")) return "currency of a locale";
    if (o.equals("java/util/TimeZone") && n.equals("getDefault")) return "default time zone";
    if (o.equals("java/util/Calendar") && (n.equals("getInstance") || n.equals("get") || n.startsWith("getDisplay"))) return "default time zone and locale";
    if (o.equals("java/util/GregorianCalendar") && n.equals("<init>")) return "default time zone and locale";
    if (o.equals("java/util/Date") && (n.equals("toString") || n.equals("toLocaleString") || n.matches("get(Hours|Minutes|Seconds|Day|Date|Month|Year|TimezoneOffset)"))) return "default time zone";
    if (o.equals("java/time/ZoneId") && n.equals("systemDefault")) return "default time zone";
    if (o.startsWith("java/time/") && n.equals("now")) return "clock and default time zone";
    if (o.equals("java/time/Clock") && n.startsWith("system")) return "clock of the platform";
    if (o.startsWith("java/time/format/") && (n.equals("ofLocalizedDate") || n.equals("ofLocalizedTime") || n.equals("ofLocalizedDateTime"))) return "format of the default locale";
    if (o.equals("java/lang/System") && (n.equals("lineSeparator") || n.equals("getProperty") || n.equals("getProperties") || n.equals("getenv"))) return "platform setting";
    if ((o.equals("java/lang/Integer") && n.equals("getInteger")) || (o.equals("java/lang/Long") && n.equals("getLong")) || (o.equals("java/lang/Boolean") && n.equals("getBoolean"))) return "system property";
    if (o.equals("java/lang/Runtime") || o.equals("java/net/InetAddress")) return "platform dependent";
    if (o.equals("java/nio/ByteOrder") && n.equals("nativeOrder")) return "platform dependent";
    return null;
  }
}
