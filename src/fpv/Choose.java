package fpv;

import java.util.*;
import java.util.function.Consumer;

/**
 * Case distinctions inside a specification. The body of a specification asks questions about symbolic
 * quantities; a question the facts do not settle makes the body be evaluated again for the other answer.
 */
final class Choose {
  private final List<Boolean> script;
  private int pos = 0;
  Facts f;

  private Choose(Facts f, List<Boolean> script) {
    this.f = f;
    this.script = script;
  }

  private static final class Dead extends RuntimeException {
    Dead() {
      super(null, null, false, false);
    }
  }

  static void each(Facts f, Consumer<Choose> body) {
    ArrayDeque<List<Boolean>> todo = new ArrayDeque<>();
    todo.push(new ArrayList<>());
    int n = 0;
    while (!todo.isEmpty()) {
      List<Boolean> s = todo.pop();
      int given = s.size();
      Choose c = new Choose(f, new ArrayList<>(s));
      if (++n > 4000) throw new Undecided("too many cases in a specification");
      try {
        body.accept(c);
      } catch (Dead d) {
        // contradictory assumption: nothing to show
      }
      for (int i = given; i < c.script.size(); i++) {
        List<Boolean> alt = new ArrayList<>(c.script.subList(0, i));
        alt.add(false);
        if (c.script.get(i)) todo.push(alt);
      }
    }
  }

  private boolean decide(Facts yes, Facts no) {
    if (yes == null && no == null) throw new Dead();
    if (yes == null) {
      f = no;
      return false;
    }
    if (no == null) {
      f = yes;
      return true;
    }
    if (pos == script.size()) script.add(true);
    boolean b = script.get(pos++);
    f = b ? yes : no;
    return b;
  }

  /** l >= 0 ? */
  boolean ge(Lin l) {
    return decide(f.andGe(l), f.andGe(l.neg().add(-1)));
  }

  boolean eq(Lin l) {
    return decide(f.andEq(l), f.andNe(l));
  }

  /** Truth of a 0/1 quantity. */
  boolean is(Lin b) {
    return decide(f.andEq(b.add(-1)), f.andEq(b));
  }

  void assume(Facts g) {
    f = f.and(g);
    if (f == null) throw new Dead();
  }

  void assumeGe(Lin l) {
    f = f.andGe(l);
    if (f == null) throw new Dead();
  }

  void assumeEq(Lin l) {
    f = f.andEq(l);
    if (f == null) throw new Dead();
  }

  Lin max(Lin a, Lin b) {
    return ge(a.sub(b)) ? a : b;
  }

  Lin min(Lin a, Lin b) {
    return ge(a.sub(b)) ? b : a;
  }

  void skip() {
    throw new Dead();
  }
}
