package fpv;

import java.util.*;

/** What is known about the class and nullness of a reference term. */
final class RefInfo {
  static final RefInfo UNKNOWN = new RefInfo(0, Collections.emptySet(), Collections.emptySet());
  final int nullness; // 0 unknown, 1 non-null, 2 null
  final Set<String> is, not;

  RefInfo(int nullness, Set<String> is, Set<String> not) {
    this.nullness = nullness;
    this.is = is;
    this.not = not;
  }

  RefInfo nonNull() {
    return new RefInfo(1, is, not);
  }

  RefInfo isNull() {
    return new RefInfo(2, is, not);
  }

  RefInfo plusIs(String c) {
    Set<String> s = new TreeSet<>(is);
    s.add(c);
    return new RefInfo(1, s, not);
  }

  RefInfo plusNot(String c) {
    Set<String> s = new TreeSet<>(not);
    s.add(c);
    return new RefInfo(nullness, is, s);
  }

  RefInfo join(RefInfo o) {
    Set<String> i = new TreeSet<>(is);
    i.retainAll(o.is);
    Set<String> n = new TreeSet<>(not);
    n.retainAll(o.not);
    return new RefInfo(nullness == o.nullness ? nullness : 0, i, n);
  }

  @Override
  public boolean equals(Object o) {
    return o instanceof RefInfo
        && ((RefInfo) o).nullness == nullness
        && ((RefInfo) o).is.equals(is)
        && ((RefInfo) o).not.equals(not);
  }

  @Override
  public int hashCode() {
    return Objects.hash(nullness, is, not);
  }

  @Override
  public String toString() {
    return (nullness == 1 ? "non-null" : nullness == 2 ? "null" : "") + (is.isEmpty() ? "" : " is" + is) + (not.isEmpty() ? "" : " not" + not);
  }
}

/** An abstract heap object; immutable, replaced on write. */
final class HObj {
  final String cls;
  final Map<String, Val> fields;
  final Object data; // List<Seg> (text), List<Val> (list/array), Map<Val,Lin> (enum set), ...
  final Lin len; // arrays of symbolic length

  HObj(String cls, Map<String, Val> fields, Object data, Lin len) {
    this.cls = cls;
    this.fields = fields;
    this.data = data;
    this.len = len;
  }

  HObj(String cls) {
    this(cls, Collections.emptyMap(), null, null);
  }

  HObj with(String f, Val v) {
    Map<String, Val> m = new LinkedHashMap<>(fields);
    m.put(f, v);
    return new HObj(cls, m, data, len);
  }

  HObj withData(Object d) {
    return new HObj(cls, fields, d, len);
  }

  @SuppressWarnings("unchecked")
  List<Seg> text() {
    return (List<Seg>) data;
  }

  @SuppressWarnings("unchecked")
  List<Val> list() {
    return (List<Val>) data;
  }

  @SuppressWarnings("unchecked")
  Map<Val, Lin> set() {
    return (Map<Val, Lin>) data;
  }

  @Override
  public boolean equals(Object o) {
    if (this == o) return true;
    if (!(o instanceof HObj)) return false;
    HObj h = (HObj) o;
    return h.cls.equals(cls) && h.fields.equals(fields) && Objects.equals(h.data, data) && Objects.equals(h.len, len);
  }

  @Override
  public int hashCode() {
    return cls.hashCode() * 31 + fields.hashCode() + Objects.hashCode(data);
  }

  @Override
  public String toString() {
    return cls.substring(cls.lastIndexOf('/') + 1) + fields + (data == null ? "" : data.toString());
  }
}

/** An observable effect. */
final class Event {
  final String kind;
  final List<Val> args;
  final String where;
  final List<List<Event>> body; // LOOP events: events of one iteration, per back-edge state

  Event(String kind, List<Val> args, String where) {
    this(kind, args, where, null);
  }

  Event(String kind, List<Val> args, String where, List<List<Event>> body) {
    this.kind = kind;
    this.args = args;
    this.where = where;
    this.body = body;
  }

  @Override
  public boolean equals(Object o) {
    return o instanceof Event && ((Event) o).kind.equals(kind) && ((Event) o).args.equals(args)
        && Objects.equals(((Event) o).body, body);
  }

  @Override
  public int hashCode() {
    return kind.hashCode() * 31 + args.hashCode();
  }

  @Override
  public String toString() {
    return kind + args + (body == null ? "" : body.toString());
  }
}

/** Abstract state of one partition. Mutable while a step runs; fork() before diverging. */
final class State {
  Facts facts = Facts.TOP;
  HashMap<Integer, HObj> heap = new HashMap<>();
  HashMap<T, RefInfo> refs = new HashMap<>();
  HashMap<String, Val> statics = new HashMap<>();
  HashMap<String, Integer> choices = new HashMap<>();
  ArrayList<Event> events = new ArrayList<>();
  Trace trace = null; // branch decisions, for reports
  int nextId = 1;
  boolean lossy = false; // a join on the way here added behaviour that may not exist

  static final class Trace {
    final Trace prev;
    final String where;
    final int depth;

    Trace(Trace prev, String where) {
      this.prev = prev;
      this.where = where;
      this.depth = prev == null ? 1 : prev.depth + 1;
    }
  }

  State fork() {
    State s = new State();
    s.facts = facts;
    s.heap = new HashMap<>(heap);
    s.refs = new HashMap<>(refs);
    s.statics = new HashMap<>(statics);
    s.choices = new HashMap<>(choices);
    s.events = new ArrayList<>(events);
    s.trace = trace;
    s.nextId = nextId;
    s.lossy = lossy;
    return s;
  }

  void note(String where) {
    if (trace == null || !trace.where.equals(where)) trace = new Trace(trace, where);
  }

  List<String> lastBranches(int n) {
    LinkedList<String> r = new LinkedList<>();
    for (Trace t = trace; t != null && r.size() < n; t = t.prev) r.addFirst(t.where);
    return r;
  }

  ObjV alloc(HObj o) {
    int id = nextId++;
    heap.put(id, o);
    return new ObjV(id);
  }

  RefInfo info(T t) {
    RefInfo r = refs.get(t);
    if (r != null) return r;
    return t.fn.startsWith("fld:") || t.fn.startsWith("nullable:") ? RefInfo.UNKNOWN : RefInfo.UNKNOWN.nonNull();
  }

  boolean assumeGe(Lin l) {
    facts = facts.andGe(l);
    return facts != null;
  }

  boolean assumeEq(Lin l) {
    facts = facts.andEq(l);
    return facts != null;
  }

  boolean assumeNe(Lin l) {
    facts = facts.andNe(l);
    return facts != null;
  }

  State withGe(Lin l) {
    Facts f = facts.andGe(l);
    if (f == null) return null;
    State s = fork();
    s.facts = f;
    return s;
  }

  State withEq(Lin l) {
    Facts f = facts.andEq(l);
    if (f == null) return null;
    State s = fork();
    s.facts = f;
    return s;
  }

  State withNe(Lin l) {
    Facts f = facts.andNe(l);
    if (f == null) return null;
    State s = fork();
    s.facts = f;
    return s;
  }

  /** Everything except the numeric facts and reference knowledge. */
  boolean sameShape(State o) {
    return nextId == o.nextId && events.equals(o.events) && statics.equals(o.statics)
        && choices.equals(o.choices) && heap.equals(o.heap);
  }
}

/** Result of a call: normal value or exception. */
final class Out {
  final State st;
  final Val val;
  final boolean thrown;

  Out(State st, Val val, boolean thrown) {
    this.st = st;
    this.val = val;
    this.thrown = thrown;
  }

  static List<Out> ret(State st, Val v) {
    List<Out> r = new ArrayList<>(1);
    r.add(new Out(st, v, false));
    return r;
  }

  @Override
  public String toString() {
    return (thrown ? "throws " : "returns ") + val;
  }
}

/** The analysis cannot give an answer for this instance. */
final class Undecided extends RuntimeException {
  Undecided(String m) {
    super(m);
  }
}
