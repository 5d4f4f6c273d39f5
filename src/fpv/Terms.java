package fpv;

import java.math.BigInteger;
import java.util.*;

/** Constructors of the interpreted terms shared by the transfer functions and the specifications. */
final class Terms {
  /** Largest length a text is assumed to have. */
  static final long MAX_LEN = 1L << 27;

  static Lin len(T base) {
    long lo = 0, hi = MAX_LEN;
    switch (base.fn) {
      case "NAT":
      case "HEXE":
        lo = 1;
        break;
      case "HEXM":
        lo = 3; // d.d
        break;
      case "DEC":
        lo = 1;
        break;
      case ".toDecimalString":
      case ".toHexString":
      case ".toOctalString":
      case ".toUnsignedDecimalString":
        lo = 1; // digits of a number; that they are its digits is rule C12
        break;
      default:
        if (base.args.size() == 1 && base.fn.startsWith("enumName")) lo = 1;
    }
    return Lin.of(T.of("LEN", "I", BigInteger.valueOf(lo), BigInteger.valueOf(hi), base));
  }

  /** Digits of the non-negative integer x in the radix, no leading zeros. */
  static List<Seg> nat(int radix, Lin x) {
    if (x.isConst()) return Seg.lit(x.c.toString(radix));
    return Seg.whole(T.of("NAT", "Ljava/lang/String;", (BigInteger) null, (BigInteger) null, Lin.of(radix), x));
  }

  static Lin charAt(T base, Lin i) {
    return Lin.of(T.of("CHAR", "C", base, i));
  }

  static Lin bool(String fn, Val... args) {
    return Lin.of(T.of(fn, "Z", args));
  }

  static final BigInteger TWO = BigInteger.valueOf(2);

  static BigInteger pow2(int n) {
    return BigInteger.ONE.shiftLeft(n);
  }

  /** x mod 2^bits as a non-negative integer. */
  static Lin unsigned(Lin x, int bits, Facts f) {
    if (x.isConst()) return Lin.of(x.c.mod(pow2(bits)));
    Lin max = Lin.of(pow2(bits).subtract(BigInteger.ONE));
    if (f.entailsGe(x) && f.entailsGe(max.sub(x))) return x;
    // values of a narrower signed type that are known negative: x + 2^bits
    Lin half = Lin.of(pow2(bits));
    if (f.entailsGe(x.neg().add(-1)) && f.entailsGe(x.add(half))) return x.add(half);
    x = stripMod(x, bits);
    return Lin.of(
        T.of("u" + bits, "#", BigInteger.ZERO, pow2(bits).subtract(BigInteger.ONE), x));
  }

  /** Removes inner wrap operators of at least this many bits (congruent mod 2^bits). */
  static Lin stripMod(Lin x, int bits) {
    Lin r = x;
    for (T t : x.atoms) {
      int b = modBits(t.fn);
      if (b >= bits && t.args.size() == 1 && t.args.get(0) instanceof Lin)
        r = r.subst(t, stripMod((Lin) t.args.get(0), bits));
    }
    // coefficients and constant modulo 2^bits, symmetric
    BigInteger m = pow2(bits);
    Lin out = Lin.of(symMod(r.c, m));
    for (int i = 0; i < r.atoms.length; i++) {
      BigInteger k = symMod(r.coef[i], m);
      if (k.signum() != 0) out = out.add(Lin.of(r.atoms[i]).mul(k));
    }
    return out;
  }

  private static BigInteger symMod(BigInteger v, BigInteger m) {
    BigInteger r = v.mod(m);
    if (r.compareTo(m.shiftRight(1)) >= 0) r = r.subtract(m);
    return r;
  }

  static int modBits(String fn) {
    switch (fn) {
      case "u8":
      case "s8":
        return 8;
      case "u16":
      case "s16":
        return 16;
      case "u32":
      case "s32":
        return 32;
      case "u64":
      case "s64":
        return 64;
      default:
        return -1;
    }
  }

  /** Two's complement wrap to a signed type of the given width. */
  static Lin signed(Lin x, int bits, Facts f) {
    BigInteger half = pow2(bits - 1);
    if (x.isConst()) return Lin.of(symMod(x.c, pow2(bits)));
    Lin lo = x.add(Lin.of(half)), hi = Lin.of(half.subtract(BigInteger.ONE)).sub(x);
    if (f.entailsGe(lo) && f.entailsGe(hi)) return x;
    Lin s = stripMod(x, bits);
    if (!s.equals(x)) {
      Lin lo2 = s.add(Lin.of(half)), hi2 = Lin.of(half.subtract(BigInteger.ONE)).sub(s);
      if (f.entailsGe(lo2) && f.entailsGe(hi2)) return s;
    }
    return Lin.of(T.of("s" + bits, "#", half.negate(), half.subtract(BigInteger.ONE), s));
  }

  private Terms() {}
}
