package fpv;

import java.math.BigInteger;
import java.util.*;

/** Linear integer form  c + sum coef[i]*atoms[i]  over mathematical integers. */
final class Lin extends Val {
  static final Lin ZERO = new Lin(BigInteger.ZERO, new T[0], new BigInteger[0]);
  static final Lin ONE = of(1);

  final BigInteger c;
  final T[] atoms; // sorted by id
  final BigInteger[] coef; // nonzero
  private int hash;

  Lin(BigInteger c, T[] atoms, BigInteger[] coef) {
    this.c = c;
    this.atoms = atoms;
    this.coef = coef;
  }

  static Lin of(long v) {
    return new Lin(BigInteger.valueOf(v), new T[0], new BigInteger[0]);
  }

  static Lin of(BigInteger v) {
    return new Lin(v, new T[0], new BigInteger[0]);
  }

  static Lin of(T t) {
    return new Lin(BigInteger.ZERO, new T[] {t}, new BigInteger[] {BigInteger.ONE});
  }

  boolean isConst() {
    return atoms.length == 0;
  }

  boolean isConst(long v) {
    return atoms.length == 0 && c.equals(BigInteger.valueOf(v));
  }

  /** The single atom if this form is exactly one atom, else null. */
  T atom() {
    return atoms.length == 1 && c.signum() == 0 && coef[0].equals(BigInteger.ONE) ? atoms[0] : null;
  }

  BigInteger coefOf(T t) {
    for (int i = 0; i < atoms.length; i++) if (atoms[i] == t) return coef[i];
    return BigInteger.ZERO;
  }

  Lin add(Lin o) {
    return comb(BigInteger.ONE, o, BigInteger.ONE);
  }

  Lin sub(Lin o) {
    return comb(BigInteger.ONE, o, BigInteger.ONE.negate());
  }

  Lin add(long v) {
    return v == 0 ? this : new Lin(c.add(BigInteger.valueOf(v)), atoms, coef);
  }

  Lin neg() {
    return mul(BigInteger.ONE.negate());
  }

  Lin mul(BigInteger k) {
    if (k.signum() == 0) return ZERO;
    if (k.equals(BigInteger.ONE)) return this;
    BigInteger[] nc = new BigInteger[coef.length];
    for (int i = 0; i < nc.length; i++) nc[i] = coef[i].multiply(k);
    return new Lin(c.multiply(k), atoms, nc);
  }

  /** ka*this + kb*o */
  Lin comb(BigInteger ka, Lin o, BigInteger kb) {
    BigInteger nc = c.multiply(ka).add(o.c.multiply(kb));
    T[] ta = new T[atoms.length + o.atoms.length];
    BigInteger[] ca = new BigInteger[ta.length];
    int i = 0, j = 0, n = 0;
    while (i < atoms.length || j < o.atoms.length) {
      if (j >= o.atoms.length || (i < atoms.length && atoms[i].id < o.atoms[j].id)) {
        ta[n] = atoms[i];
        ca[n] = coef[i].multiply(ka);
        i++;
      } else if (i >= atoms.length || o.atoms[j].id < atoms[i].id) {
        ta[n] = o.atoms[j];
        ca[n] = o.coef[j].multiply(kb);
        j++;
      } else {
        ta[n] = atoms[i];
        ca[n] = coef[i].multiply(ka).add(o.coef[j].multiply(kb));
        i++;
        j++;
      }
      if (ca[n].signum() != 0) n++;
    }
    return new Lin(nc, Arrays.copyOf(ta, n), Arrays.copyOf(ca, n));
  }

  /** Replaces an atom by a linear form. */
  Lin subst(T t, Lin by) {
    BigInteger k = coefOf(t);
    if (k.signum() == 0) return this;
    return sub(Lin.of(t).mul(k)).add(by.mul(k));
  }

  /** Interval lower bound from atom ranges, null if unbounded. */
  BigInteger lo() {
    BigInteger r = c;
    for (int i = 0; i < atoms.length; i++) {
      BigInteger b = coef[i].signum() > 0 ? atoms[i].lo : atoms[i].hi;
      if (b == null) return null;
      r = r.add(b.multiply(coef[i]));
    }
    return r;
  }

  BigInteger hi() {
    BigInteger r = c;
    for (int i = 0; i < atoms.length; i++) {
      BigInteger b = coef[i].signum() > 0 ? atoms[i].hi : atoms[i].lo;
      if (b == null) return null;
      r = r.add(b.multiply(coef[i]));
    }
    return r;
  }

  @Override
  public boolean equals(Object o) {
    if (this == o) return true;
    if (!(o instanceof Lin)) return false;
    Lin l = (Lin) o;
    return l.c.equals(c) && Arrays.equals(l.atoms, atoms) && Arrays.equals(l.coef, coef);
  }

  @Override
  public int hashCode() {
    int h = hash;
    if (h == 0) {
      h = c.hashCode();
      for (int i = 0; i < atoms.length; i++) h = h * 31 + atoms[i].hashCode() * 17 + coef[i].hashCode();
      hash = h;
    }
    return h;
  }

  @Override
  public String toString() {
    if (atoms.length == 0) return c.toString();
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < atoms.length; i++) {
      BigInteger k = coef[i];
      if (k.signum() < 0) sb.append('-');
      else if (i > 0) sb.append('+');
      if (!k.abs().equals(BigInteger.ONE)) sb.append(k.abs()).append('*');
      sb.append(atoms[i]);
    }
    if (c.signum() != 0) {
      if (c.signum() > 0) sb.append('+');
      sb.append(c);
    }
    return sb.toString();
  }
}
