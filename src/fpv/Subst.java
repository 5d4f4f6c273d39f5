package fpv;

import java.util.*;

/** Replaces terms throughout a state. */
final class Subst {
  private final Map<T, T> map;
  private final Map<T, T> memo = new HashMap<>();

  Subst(Map<T, T> map) {
    this.map = map;
  }

  T term(T t) {
    T r = map.get(t);
    if (r != null) return r;
    if (t.args.isEmpty()) return t;
    r = memo.get(t);
    if (r != null) return r;
    boolean ch = false;
    List<Val> a = new ArrayList<>(t.args.size());
    for (Val v : t.args) {
      Val n = val(v);
      ch |= n != v;
      a.add(n);
    }
    r = ch ? T.of(t.fn, t.desc, t.lo, t.hi, a) : t;
    memo.put(t, r);
    return r;
  }

  Lin lin(Lin l) {
    Lin r = l;
    for (int i = 0; i < l.atoms.length; i++) {
      T n = term(l.atoms[i]);
      if (n != l.atoms[i]) r = r.sub(Lin.of(l.atoms[i]).mul(l.coef[i])).add(Lin.of(n).mul(l.coef[i]));
    }
    return r.equals(l) ? l : r;
  }

  Seg seg(Seg s) {
    switch (s.k) {
      case LIT:
        return s;
      case RUN:
        {
          Lin c = lin(s.ch), n = lin(s.n);
          return c == s.ch && n == s.n ? s : Seg.run(c, n, s.upper);
        }
      default:
        {
          T b = term(s.base);
          Lin f = lin(s.from), t = lin(s.to);
          return b == s.base && f == s.from && t == s.to ? s : Seg.sub(b, f, t, s.upper);
        }
    }
  }

  List<Seg> segs(List<Seg> l) {
    boolean ch = false;
    List<Seg> r = new ArrayList<>(l.size());
    for (Seg s : l) {
      Seg n = seg(s);
      ch |= n != s;
      r.add(n);
    }
    return ch ? r : l;
  }

  Val val(Val v) {
    if (v instanceof T) return term((T) v);
    if (v instanceof Lin) return lin((Lin) v);
    if (v instanceof TextV) {
      List<Seg> s = segs(((TextV) v).segs);
      return s == ((TextV) v).segs ? v : new TextV(s, ((TextV) v).seq);
    }
    if (v instanceof BigV) {
      Lin l = lin(((BigV) v).v);
      return l == ((BigV) v).v ? v : new BigV(l);
    }
    if (v instanceof BoxV) {
      Val x = val(((BoxV) v).v);
      return x == ((BoxV) v).v ? v : new BoxV(((BoxV) v).cls, x);
    }
    if (v instanceof CmpV) {
      CmpV c = (CmpV) v;
      Val a = val(c.a), b = val(c.b);
      return a == c.a && b == c.b ? v : new CmpV(a, b, c.kind, c.nanIsGreater);
    }
    if (v instanceof LamV) {
      LamV l = (LamV) v;
      boolean ch = false;
      List<Val> r = new ArrayList<>();
      for (Val x : l.captured) {
        Val n = val(x);
        ch |= n != x;
        r.add(n);
      }
      return ch ? new LamV(l.iface, l.sam, l.samDesc, l.impl, r) : v;
    }
    return v;
  }

  @SuppressWarnings("unchecked")
  HObj obj(HObj h) {
    Map<String, Val> fs = null;
    for (Map.Entry<String, Val> e : h.fields.entrySet()) {
      Val n = val(e.getValue());
      if (n != e.getValue()) {
        if (fs == null) fs = new LinkedHashMap<>(h.fields);
        fs.put(e.getKey(), n);
      }
    }
    Object d = h.data;
    if (d instanceof List && !((List<?>) d).isEmpty()) {
      if (((List<?>) d).get(0) instanceof Seg) d = segs((List<Seg>) d);
      else if (((List<?>) d).get(0) instanceof Val) {
        List<Val> r = new ArrayList<>();
        boolean ch = false;
        for (Val x : (List<Val>) d) {
          Val n = val(x);
          ch |= n != x;
          r.add(n);
        }
        if (ch) d = r;
      }
    } else if (d instanceof Map) {
      Map<Val, Lin> r = new LinkedHashMap<>();
      boolean ch = false;
      for (Map.Entry<Val, Lin> e : ((Map<Val, Lin>) d).entrySet()) {
        Lin n = lin(e.getValue());
        ch |= n != e.getValue();
        r.put(e.getKey(), n);
      }
      if (ch) d = r;
    }
    Lin len = h.len == null ? null : lin(h.len);
    if (fs == null && d == h.data && len == h.len) return h;
    return new HObj(h.cls, fs == null ? h.fields : fs, d, len);
  }

  Event event(Event e) {
    List<Val> a = new ArrayList<>();
    boolean ch = false;
    for (Val v : e.args) {
      Val n = v == null ? null : val(v);
      ch |= n != v;
      a.add(n);
    }
    List<List<Event>> b = e.body;
    if (b != null) {
      b = new ArrayList<>();
      for (List<Event> l : e.body) {
        List<Event> m = new ArrayList<>();
        for (Event x : l) m.add(event(x));
        b.add(m);
      }
      ch = true;
    }
    return ch ? new Event(e.kind, a, e.where, b) : e;
  }

  /** In place; false when the renamed facts contradict each other. */
  boolean state(State st) {
    Facts f = st.facts.rename(this);
    if (f == null) return false;
    st.facts = f;
    for (Map.Entry<Integer, HObj> e : st.heap.entrySet()) {
      HObj n = obj(e.getValue());
      if (n != e.getValue()) e.setValue(n);
    }
    for (Map.Entry<String, Val> e : st.statics.entrySet()) e.setValue(val(e.getValue()));
    HashMap<T, RefInfo> refs = new HashMap<>();
    for (Map.Entry<T, RefInfo> e : st.refs.entrySet()) refs.put(term(e.getKey()), e.getValue());
    st.refs = refs;
    for (int i = 0; i < st.events.size(); i++) st.events.set(i, event(st.events.get(i)));
    return true;
  }

  boolean frame(Interp.Fr f) {
    if (!state(f.st)) return false;
    for (int i = 0; i < f.loc.length; i++) if (f.loc[i] != null) f.loc[i] = val(f.loc[i]);
    for (int i = 0; i < f.stk.size(); i++) f.stk.set(i, val(f.stk.get(i)));
    return true;
  }
}
