package fpv;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

/** Obligations of one check: what was shown, what was refuted and where the analysis gave up. */
final class Report {
  final String property;
  final Map<String, int[]> rules = new LinkedHashMap<>(); // proved, refuted, undecided
  final Map<String, List<String>> violations = new LinkedHashMap<>(); // key -> lines
  final Map<String, Integer> undecided = new LinkedHashMap<>();
  final List<String> samples = new ArrayList<>();
  final Map<String, Object> extra = new LinkedHashMap<>();
  final List<String> assumptions = new ArrayList<>();
  final Set<String> analysed = new TreeSet<>();
  private final Map<String, Integer> sampleCount = new HashMap<>();

  Report(String property) {
    this.property = property;
  }

  private int[] row(String rule) {
    return rules.computeIfAbsent(rule, k -> new int[3]);
  }

  void declare(String rule) {
    row(rule);
  }

  void proved(String rule, String instance) {
    row(rule)[0]++;
    if (sampleCount.merge(rule, 1, Integer::sum) <= 2) samples.add(rule + ": " + instance + " -> holds");
  }

  void refuted(String rule, String instance, String where, String... detail) {
    row(rule)[1]++;
    String key = rule + " | " + instance;
    if (violations.containsKey(key)) return;
    List<String> l = new ArrayList<>();
    l.add("rule: " + rule);
    l.add("instance: " + instance);
    l.add("where: " + where);
    Collections.addAll(l, detail);
    violations.put(key, l);
  }

  void undecided(String rule, String instance, String why) {
    row(rule)[2]++;
    undecided.merge(rule + " | " + instance + " | " + why, 1, Integer::sum);
  }

  int total(int k) {
    int n = 0;
    for (int[] r : rules.values()) n += r[k];
    return n;
  }

  // ---- output --------------------------------------------------------------------------------

  static String json(Object o) {
    StringBuilder sb = new StringBuilder();
    json(o, sb);
    return sb.toString();
  }

  private static void json(Object o, StringBuilder sb) {
    if (o == null) sb.append("null");
    else if (o instanceof Map) {
      sb.append('{');
      boolean first = true;
      for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) {
        if (!first) sb.append(',');
        first = false;
        json(String.valueOf(e.getKey()), sb);
        sb.append(':');
        json(e.getValue(), sb);
      }
      sb.append('}');
    } else if (o instanceof Iterable) {
      sb.append('[');
      boolean first = true;
      for (Object x : (Iterable<?>) o) {
        if (!first) sb.append(',');
        first = false;
        json(x, sb);
      }
      sb.append(']');
    } else if (o instanceof Number || o instanceof Boolean) sb.append(o);
    else {
      sb.append('"');
      String s = String.valueOf(o);
      for (int i = 0; i < s.length(); i++) {
        char c = s.charAt(i);
        if (c == '"' || c == '\\') sb.append('\\').append(c);
        else if (c < 32 || c > 126) sb.append(String.format("\\u%04x", (int) c));
        else sb.append(c);
      }
      sb.append('"');
    }
  }

  Path write(Path dir, String rule, double wall) throws IOException {
    Files.createDirectories(dir);
    Map<String, Object> ev = new LinkedHashMap<>();
    ev.put("property", property);
    String tier = System.getenv("VERIF_TIER");
    ev.put("tier", "thorough".equals(tier) ? "thorough" : "quick");
    int seed = 1;
    try {
      seed = Integer.parseInt(System.getenv("VERIF_SEED"));
    } catch (NumberFormatException e) {
      // default
    }
    ev.put("seed", seed);
    ev.put("level", "other");
    Map<String, Object> cov = new LinkedHashMap<>();
    cov.put("explanation", rule);
    cov.put("obligations_held", total(0));
    cov.put("obligations_refuted", total(1));
    cov.put("obligations_undecided", total(2));
    Map<String, Object> per = new LinkedHashMap<>();
    for (Map.Entry<String, int[]> e : rules.entrySet()) {
      Map<String, Object> m = new LinkedHashMap<>();
      m.put("held", e.getValue()[0]);
      m.put("refuted", e.getValue()[1]);
      m.put("undecided", e.getValue()[2]);
      per.put(e.getKey(), m);
    }
    cov.put("rules", per);
    cov.put("methods_analysed", analysed.size());
    cov.put("methods", analysed);
    cov.putAll(extra);
    cov.put("samples", samples.subList(0, Math.min(40, samples.size())));
    List<String> und = new ArrayList<>();
    for (Map.Entry<String, Integer> e : undecided.entrySet()) if (und.size() < 60) und.add(e.getKey() + " (x" + e.getValue() + ")");
    cov.put("undecided", und);
    List<String> v = new ArrayList<>();
    for (List<String> l : violations.values()) v.add(String.join("; ", l));
    cov.put("violation_details", v);
    ev.put("coverage", cov);
    ev.put("assumptions", assumptions);
    ev.put("violations", v.size());
    ev.put("wall_s", wall);
    Files.write(dir.resolve(property + ".json"), (json(ev) + "\n").getBytes(StandardCharsets.UTF_8));
    if (violations.isEmpty()) return null;
    Path rp = dir.resolve(property + ".violation.txt");
    StringBuilder sb = new StringBuilder();
    sb.append("property ").append(property).append('\n');
    for (List<String> l : violations.values()) {
      for (String s : l) sb.append("  ").append(s).append('\n');
      sb.append('\n');
    }
    Files.write(rp, sb.toString().getBytes(StandardCharsets.UTF_8));
    return rp;
  }
}
