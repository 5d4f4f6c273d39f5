package fpv;

import java.io.*;
import java.net.URI;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.stream.*;
import javax.tools.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;

/** The type-checked program: the repository's main sources compiled in memory, as ASM trees. */
final class Prog {
  static final class M {
    final ClassNode cls;
    final MethodNode node;
    private Cfg cfg;

    M(ClassNode cls, MethodNode node) {
      this.cls = cls;
      this.node = node;
    }

    boolean isStatic() {
      return (node.access & Opcodes.ACC_STATIC) != 0;
    }

    boolean isAbstract() {
      return (node.access & (Opcodes.ACC_ABSTRACT | Opcodes.ACC_NATIVE)) != 0;
    }

    Cfg cfg() {
      if (cfg == null) cfg = new Cfg(this);
      return cfg;
    }

    String id() {
      return cls.name + "." + node.name + node.desc;
    }

    @Override
    public String toString() {
      return cls.name.substring(cls.name.lastIndexOf('/') + 1) + "." + node.name;
    }
  }

  final Map<String, ClassNode> classes = new TreeMap<>();
  final Map<String, byte[]> bytes = new TreeMap<>();
  final Map<String, M> methods = new HashMap<>();
  final Map<String, String> sourceFile = new HashMap<>();
  final Path repo;
  int sourceFiles = 0;

  Prog(Path repo) throws IOException {
    this.repo = repo;
    compile();
  }

  /** Compiles src/main/java at Java 8 level, exactly the sources the library ships. */
  private void compile() throws IOException {
    JavaCompiler jc = ToolProvider.getSystemJavaCompiler();
    if (jc == null) throw new IOException("no system Java compiler");
    Path root = repo.resolve("src/main/java");
    List<Path> files;
    try (Stream<Path> s = Files.walk(root)) {
      files = s.filter(p -> p.toString().endsWith(".java"))
              .filter(p -> !p.getFileName().toString().equals("module-info.java"))
              .sorted().collect(Collectors.toList());
    }
    sourceFiles = files.size();
    List<JavaFileObject> units = new ArrayList<>();
    for (Path p : files) {
      String text = new String(Files.readAllBytes(p), StandardCharsets.UTF_8);
      units.add(
          new SimpleJavaFileObject(p.toUri(), JavaFileObject.Kind.SOURCE) {
            @Override
            public CharSequence getCharContent(boolean ignore) {
              return text;
            }
          });
    }
    DiagnosticCollector<JavaFileObject> diag = new DiagnosticCollector<>();
    Map<String, ByteArrayOutputStream> out = new TreeMap<>();
    try (StandardJavaFileManager std = jc.getStandardFileManager(diag, null, StandardCharsets.UTF_8)) {
      JavaFileManager fm =
          new ForwardingJavaFileManager<StandardJavaFileManager>(std) {
            @Override
            public JavaFileObject getJavaFileForOutput(
                Location l, String name, JavaFileObject.Kind kind, FileObject sibling) {
              ByteArrayOutputStream bo = new ByteArrayOutputStream();
              out.put(name, bo);
              return new SimpleJavaFileObject(
                  URI.create("mem:///" + name.replace('.', '/') + kind.extension), kind) {
                @Override
                public OutputStream openOutputStream() {
                  return bo;
                }
              };
            }
          };
      boolean ok =
          jc.getTask(null, fm, diag,
                  Arrays.asList("--release", "8", "-g", "-proc:none", "-Xlint:-options", "-nowarn"),
                  null, units)
              .call();
      if (!ok) {
        StringBuilder sb = new StringBuilder("compilation failed:");
        for (Diagnostic<?> d : diag.getDiagnostics())
          if (d.getKind() == Diagnostic.Kind.ERROR) sb.append("\n").append(d);
        throw new IOException(sb.toString());
      }
    }
    for (ByteArrayOutputStream bo : out.values()) load(bo.toByteArray());
    for (Path p : files) {
      String rel = repo.relativize(p).toString();
      String base = root.relativize(p).toString();
      sourceFile.put(base.substring(0, base.length() - 5), rel);
    }
  }

  void load(byte[] b) {
    ClassNode cn = new ClassNode();
    new ClassReader(b).accept(cn, ClassReader.SKIP_FRAMES);
    classes.put(cn.name, cn);
    bytes.put(cn.name, b);
    for (MethodNode mn : cn.methods) {
      M m = new M(cn, mn);
      methods.put(cn.name + "." + mn.name + mn.desc, m);
    }
  }

  boolean isRepo(String cls) {
    return classes.containsKey(cls);
  }

  M declared(String cls, String name, String desc) {
    return methods.get(cls + "." + name + desc);
  }

  private final Map<String, Map<String, M>> functional = new HashMap<>();

  /** The default, static and lambda methods of java.util.function, which combine the program's own functions. */
  M functional(String owner, String name, String desc) {
    if (!owner.startsWith("java/util/function/")) return null;
    M m = functional.computeIfAbsent(owner, o -> {
      Map<String, M> r = new HashMap<>();
      try (InputStream s = ClassLoader.getSystemResourceAsStream(o + ".class")) {
        if (s == null) return r;
        ClassNode cn = new ClassNode();
        new ClassReader(s.readAllBytes()).accept(cn, ClassReader.SKIP_FRAMES);
        for (MethodNode mn : cn.methods) r.put(mn.name + mn.desc, new M(cn, mn));
      } catch (IOException e) {
        return r;
      }
      return r;
    }).get(name + desc);
    return m == null || m.isAbstract() ? null : m;
  }

  /** Virtual lookup: the implementation a receiver of exactly this class runs; null if not in the program. */
  M resolve(String cls, String name, String desc) {
    for (String c = cls; c != null && classes.containsKey(c); c = classes.get(c).superName) {
      M m = declared(c, name, desc);
      if (m != null && !m.isAbstract()) return m;
    }
    // default methods
    Deque<String> q = new ArrayDeque<>();
    Set<String> seen = new HashSet<>();
    for (String c = cls; c != null && classes.containsKey(c); c = classes.get(c).superName) q.add(c);
    M best = null;
    while (!q.isEmpty()) {
      String c = q.poll();
      if (!seen.add(c)) continue;
      ClassNode cn = classes.get(c);
      if (cn == null) continue;
      if ((cn.access & Opcodes.ACC_INTERFACE) != 0) {
        M m = declared(c, name, desc);
        if (m != null && !m.isAbstract() && !m.isStatic()) {
          if (best == null || isSub(c, best.cls.name)) best = m;
        }
      }
      q.addAll(cn.interfaces);
    }
    return best;
  }

  /** Finds a method by name and descriptor for any class of the program; descriptor may be null. */
  List<M> named(String cls, String name) {
    List<M> r = new ArrayList<>();
    ClassNode cn = classes.get(cls);
    if (cn == null) return r;
    for (MethodNode mn : cn.methods) if (mn.name.equals(name)) r.add(methods.get(cn.name + "." + mn.name + mn.desc));
    return r;
  }

  /** Concrete program classes that are subtypes of the given one. */
  List<String> implementors(String type) {
    List<String> r = new ArrayList<>();
    for (ClassNode cn : classes.values())
      if ((cn.access & (Opcodes.ACC_INTERFACE | Opcodes.ACC_ABSTRACT)) == 0 && isSub(cn.name, type))
        r.add(cn.name);
    return r;
  }

  /** Is the method overridden below the given class (so that inlining the default is not enough)? */
  boolean overriddenBelow(String type, M m) {
    for (String c : implementors(type)) {
      M r = resolve(c, m.node.name, m.node.desc);
      if (r != m) return true;
    }
    return false;
  }

  private final Map<String, Boolean> subCache = new HashMap<>();

  boolean isSub(String a, String b) {
    if (a.equals(b) || b.equals("java/lang/Object")) return true;
    String key = a + "<" + b;
    Boolean r = subCache.get(key);
    if (r == null) {
      r = isSub0(a, b);
      subCache.put(key, r);
    }
    return r;
  }

  private boolean isSub0(String a, String b) {
    ClassNode cn = classes.get(a);
    if (cn != null) {
      if (cn.superName != null && isSub(cn.superName, b)) return true;
      for (String i : cn.interfaces) if (isSub(i, b)) return true;
      return false;
    }
    if (a.startsWith("[") || b.startsWith("[")) {
      if (a.startsWith("[") && !b.startsWith("["))
        return b.equals("java/lang/Cloneable") || b.equals("java/io/Serializable");
      if (!a.startsWith("[")) return false;
      String ea = a.substring(1), eb = b.substring(1);
      if (ea.length() == 1 || eb.length() == 1) return ea.equals(eb);
      return isSub(strip(ea), strip(eb));
    }
    if (classes.containsKey(b)) return false;
    Class<?> x = jdk(a), y = jdk(b);
    return x != null && y != null && y.isAssignableFrom(x);
  }

  static String strip(String d) {
    return d.startsWith("L") && d.endsWith(";") ? d.substring(1, d.length() - 1) : d;
  }

  private static final Map<String, Optional<Class<?>>> JDK = new HashMap<>();

  static Class<?> jdk(String name) {
    return JDK.computeIfAbsent(
            name,
            n -> {
              try {
                return Optional.of(Class.forName(n.replace('/', '.'), false, null));
              } catch (Throwable t) {
                return Optional.empty();
              }
            })
        .orElse(null);
  }

  boolean isInterface(String c) {
    ClassNode cn = classes.get(c);
    if (cn != null) return (cn.access & Opcodes.ACC_INTERFACE) != 0;
    Class<?> k = jdk(c);
    return k != null && k.isInterface();
  }

  boolean isFinal(String c) {
    ClassNode cn = classes.get(c);
    if (cn != null) {
      if ((cn.access & (Opcodes.ACC_FINAL | Opcodes.ACC_ENUM)) != 0) return true;
      return false;
    }
    Class<?> k = jdk(c);
    return k != null && java.lang.reflect.Modifier.isFinal(k.getModifiers());
  }

  /** "src/main/java/.../X.java" for a class. */
  String fileOf(String cls) {
    String top = cls;
    int d = top.indexOf('$');
    if (d > 0) top = top.substring(0, d);
    String f = sourceFile.get(top);
    if (f != null) return f;
    ClassNode cn = classes.get(cls);
    if (cn != null && cn.sourceFile != null) {
      String pkg = cls.contains("/") ? cls.substring(0, cls.lastIndexOf('/') + 1) : "";
      return "src/main/java/" + pkg + cn.sourceFile;
    }
    return cls;
  }
}
