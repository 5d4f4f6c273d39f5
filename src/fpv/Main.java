package fpv;

import java.nio.file.*;
import java.util.*;

/** Entry point: fpv.Main PROPERTY. Exit 0 held, 1 violated, 2 the check could not be carried out. */
public final class Main {
  private static Rule rule(String id) {
    switch (id) {
      case "C03":
        return new R03();
      case "C08":
        return new R08();
      case "C09":
        return new R09();
      case "C11":
        return new R11();
      case "C13":
        return new R13();
      case "C15":
        return new R15();
      case "C01":
        return new R01(false);
      case "C25":
        return new R01(true);
      case "C02":
        return new R02();
      case "C20":
        return new R20();
      case "C21":
        return new R21();
      case "C18":
        return new R18();
      case "C19":
        return new R19();
      case "C22":
        return new R22();
      case "C23":
        return new R23();
      case "C14":
        return new R14();
      case "C24":
        return new R24();
      case "C12":
        return new R12();
      case "C16":
        return new R16();
      case "C17":
        return new R17();
      case "C10":
        return new R10();
      case "C07":
        return new R07();
      case "C04":
        return new R04();
      case "C05":
        return new R05();
      case "C06":
        return new R06();
      default:
        return null;
    }
  }

  public static void main(String[] args) throws Exception {
    int[] code = {2};
    Thread t =
        new Thread(
            null,
            () -> {
              try {
                code[0] = check(args[0]);
              } catch (Throwable e) {
                e.printStackTrace(System.out);
              }
            },
            "check",
            512L << 20);
    t.start();
    t.join();
    System.out.flush();
    System.exit(code[0]);
  }

  private static int check(String id) throws Exception {
    long t0 = System.nanoTime();
    Interp.deadline = t0 + 600_000_000_000L;
    Path repo = Paths.get(System.getProperty("fpv.repo", "/repo"));
    Path evidence = Paths.get(System.getProperty("fpv.evidence", "evidence"));
    Rule r = rule(id);
    if (r == null) {
      System.out.println("no check for " + id);
      return 2;
    }
    r.prog = new Prog(repo);
    r.rep = new Report(id);
    String missing = null;
    try {
      r.run();
    } catch (AnchorMissing e) {
      missing = "program element not found: " + e.getMessage();
    }
    Report rep = r.rep;
    rep.extra.put("source_files", r.prog.sourceFiles);
    rep.extra.put("classes", r.prog.classes.size());
    double wall = Math.round((System.nanoTime() - t0) / 1e7) / 100.0;
    Path replay = rep.write(evidence, r.explain(), wall);
    System.out.println(id + ": " + rep.total(0) + " obligations hold, " + rep.total(1) + " refuted, " + rep.total(2) + " undecided; " + rep.analysed.size() + " methods; " + wall + " s");
    for (Map.Entry<String, int[]> e : rep.rules.entrySet())
      System.out.println("  " + e.getKey() + ": held " + e.getValue()[0] + ", refuted " + e.getValue()[1] + ", undecided " + e.getValue()[2]);
    int n = 0;
    for (Map.Entry<String, Integer> e : rep.undecided.entrySet()) if (n++ < Integer.getInteger("fpv.undecided", 12)) System.out.println("  undecided: " + e.getKey() + " (x" + e.getValue() + ")");
    n = 0;
    for (List<String> v : rep.violations.values()) if (n++ < 8) System.out.println("  * " + String.join("\n    ", v));
    if (replay != null) {
      System.out.println("VIOLATION property=" + id + " replay=" + replay.toAbsolutePath());
      return 1;
    }
    if (missing != null) {
      System.out.println(missing);
      return 2;
    }
    if (rep.total(0) == 0) {
      System.out.println("nothing could be decided");
      return 2;
    }
    return 0;
  }
}
