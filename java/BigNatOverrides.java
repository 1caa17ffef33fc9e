import java.math.BigInteger;
import java.security.MessageDigest;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Java implementations of operators that are defined in TLA+ by the modules
 * BigNatPure, HexPure and Sha256Pure. MCBigNat checks the agreement.
 */
public class BigNatOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() {
    return new Class[] {BigNatOverrides.class};
  }

  private static final IntValue[] OCTET = new IntValue[256];

  static {
    for (int i = 0; i < 256; i++) {
      OCTET[i] = IntValue.gen(i);
    }
  }

  private static Value[] elems(final Value v) {
    final Value t = v instanceof TupleValue ? v : v.toTuple();
    if (t == null) {
      throw new IllegalArgumentException("not an octet string: " + v);
    }
    return ((TupleValue) t).elems;
  }

  private static byte[] bytes(final Value v) {
    final Value[] e = elems(v);
    final byte[] b = new byte[e.length];
    for (int i = 0; i < b.length; i++) {
      final int x = ((IntValue) e[i]).val;
      if (x < 0 || x > 255) {
        throw new IllegalArgumentException("not an octet: " + x);
      }
      b[i] = (byte) x;
    }
    return b;
  }

  private static BigInteger nat(final Value v) {
    return new BigInteger(1, bytes(v));
  }

  private static int len(final Value v) {
    return elems(v).length;
  }

  private static Value octets(final byte[] b, final int len) {
    final Value[] r = new Value[len];
    for (int i = 0; i < len; i++) {
      final int j = b.length - len + i;
      r[i] = OCTET[j < 0 ? 0 : (b[j] & 255)];
    }
    return new TupleValue(r);
  }

  private static Value octets(final BigInteger x, final int len) {
    return octets(x.toByteArray(), len);
  }

  @TLAPlusOperator(identifier = "NatCmp", module = "BigNat", warn = false)
  public static Value cmp(final Value a, final Value b) {
    return IntValue.gen(nat(a).compareTo(nat(b)));
  }

  @TLAPlusOperator(identifier = "NatBits", module = "BigNat", warn = false)
  public static Value bits(final Value a) {
    final byte[] b = bytes(a);
    final Value[] r = new Value[8 * b.length];
    for (int i = 0; i < r.length; i++) {
      r[i] = OCTET[(b[i >> 3] >> (7 - (i & 7))) & 1];
    }
    return new TupleValue(r);
  }

  @TLAPlusOperator(identifier = "NatMod", module = "BigNat", warn = false)
  public static Value mod(final Value a, final Value m) {
    return octets(nat(a).mod(nat(m)), len(m));
  }

  @TLAPlusOperator(identifier = "NatAddMod", module = "BigNat", warn = false)
  public static Value addMod(final Value a, final Value b, final Value m) {
    return octets(nat(a).add(nat(b)).mod(nat(m)), len(m));
  }

  @TLAPlusOperator(identifier = "NatSubMod", module = "BigNat", warn = false)
  public static Value subMod(final Value a, final Value b, final Value m) {
    return octets(nat(a).subtract(nat(b)).mod(nat(m)), len(m));
  }

  @TLAPlusOperator(identifier = "NatMulMod", module = "BigNat", warn = false)
  public static Value mulMod(final Value a, final Value b, final Value m) {
    return octets(nat(a).multiply(nat(b)).mod(nat(m)), len(m));
  }

  @TLAPlusOperator(identifier = "NatPowMod", module = "BigNat", warn = false)
  public static Value powMod(final Value a, final Value e, final Value m) {
    return octets(nat(a).modPow(nat(e), nat(m)), len(m));
  }

  @TLAPlusOperator(identifier = "NatInvMod", module = "BigNat", warn = false)
  public static Value invMod(final Value a, final Value m) {
    final BigInteger n = nat(m);
    final BigInteger x = nat(a).mod(n);
    return octets(x.signum() == 0 ? x : x.modInverse(n), len(m));
  }

  @TLAPlusOperator(identifier = "NatShr", module = "BigNat", warn = false)
  public static Value shr(final Value a, final Value k) {
    return octets(nat(a).shiftRight(((IntValue) k).val), len(a));
  }

  @TLAPlusOperator(identifier = "Unhex", module = "Hex", warn = false)
  public static Value unhex(final Value s) {
    final String h = ((StringValue) s).val.toString();
    final byte[] b = new byte[h.length() / 2];
    for (int i = 0; i < b.length; i++) {
      b[i] = (byte) Integer.parseInt(h.substring(2 * i, 2 * i + 2), 16);
    }
    return octets(b, b.length);
  }

  @TLAPlusOperator(identifier = "ToHex", module = "Hex", warn = false)
  public static Value toHex(final Value v) {
    final StringBuilder sb = new StringBuilder();
    for (final byte x : bytes(v)) {
      sb.append(String.format("%02x", x & 255));
    }
    return new StringValue(sb.toString());
  }

  @TLAPlusOperator(identifier = "Sha256", module = "Sha256", warn = false)
  public static Value sha256(final Value m) throws Exception {
    final byte[] d = MessageDigest.getInstance("SHA-256").digest(bytes(m));
    return octets(d, d.length);
  }

  /** A point in projective form (X : Y : Z) with x = X/Z^2, y = Y/Z^3; null is infinity. */
  private static BigInteger[] dbl(final BigInteger[] p, final BigInteger m) {
    if (p == null || p[1].signum() == 0) {
      return null;
    }
    final BigInteger yy = p[1].multiply(p[1]).mod(m);
    final BigInteger s = p[0].multiply(yy).shiftLeft(2).mod(m);
    final BigInteger e = p[0].multiply(p[0]).multiply(BigInteger.valueOf(3)).mod(m);
    final BigInteger x = e.multiply(e).subtract(s.shiftLeft(1)).mod(m);
    final BigInteger y =
        e.multiply(s.subtract(x)).subtract(yy.multiply(yy).shiftLeft(3)).mod(m);
    final BigInteger z = p[1].multiply(p[2]).shiftLeft(1).mod(m);
    return new BigInteger[] {x, y, z};
  }

  /** Adds the affine point (x2, y2). */
  private static BigInteger[] add(
      final BigInteger[] p, final BigInteger x2, final BigInteger y2, final BigInteger m) {
    if (p == null) {
      return new BigInteger[] {x2, y2, BigInteger.ONE};
    }
    final BigInteger zz = p[2].multiply(p[2]).mod(m);
    final BigInteger h = x2.multiply(zz).subtract(p[0]).mod(m);
    final BigInteger r = y2.multiply(zz.multiply(p[2]).mod(m)).subtract(p[1]).mod(m);
    if (h.signum() == 0) {
      return r.signum() == 0 ? dbl(p, m) : null;
    }
    final BigInteger hh = h.multiply(h).mod(m);
    final BigInteger hhh = hh.multiply(h).mod(m);
    final BigInteger v = p[0].multiply(hh).mod(m);
    final BigInteger x = r.multiply(r).subtract(hhh).subtract(v.shiftLeft(1)).mod(m);
    final BigInteger y = r.multiply(v.subtract(x)).subtract(p[1].multiply(hhh)).mod(m);
    return new BigInteger[] {x, y, p[2].multiply(h).mod(m)};
  }

  private static Value point(final BigInteger[] p, final BigInteger m, final int len) {
    if (p == null) {
      return new TupleValue(new Value[0]);
    }
    final BigInteger zi = p[2].modInverse(m);
    final BigInteger zi2 = zi.multiply(zi).mod(m);
    return new TupleValue(
        new Value[] {
          octets(p[0].multiply(zi2).mod(m), len),
          octets(p[1].multiply(zi2.multiply(zi).mod(m)).mod(m), len)
        });
  }

  @TLAPlusOperator(identifier = "EcAdd", module = "Ec", warn = false)
  public static Value ecAdd(final Value p, final Value q, final Value m) {
    final Value[] a = elems(p);
    final Value[] b = elems(q);
    if (a.length == 0) {
      return q;
    }
    if (b.length == 0) {
      return p;
    }
    final BigInteger n = nat(m);
    final BigInteger[] r =
        add(new BigInteger[] {nat(a[0]), nat(a[1]), BigInteger.ONE}, nat(b[0]), nat(b[1]), n);
    return point(r, n, len(m));
  }

  @TLAPlusOperator(identifier = "EcMul", module = "Ec", warn = false)
  public static Value ecMul(final Value k, final Value p, final Value m) {
    final Value[] a = elems(p);
    final BigInteger e = nat(k);
    if (a.length == 0 || e.signum() == 0) {
      return new TupleValue(new Value[0]);
    }
    final BigInteger n = nat(m);
    final BigInteger x = nat(a[0]);
    final BigInteger y = nat(a[1]);
    BigInteger[] r = null;
    for (int i = e.bitLength() - 1; i >= 0; i--) {
      r = dbl(r, n);
      if (e.testBit(i)) {
        r = add(r, x, y, n);
      }
    }
    return point(r, n, len(m));
  }
}
