"""Scripts over the public interface, one function per property."""
import base64
import low
import rel
from base import *


# ---- C01, C02: signing -----------------------------------------------------------
def interesting_dz(rng):
    d = rnz(rng)
    z = b256(rng)
    c = rng.randrange(12)
    if c == 0:
        z = d
    elif c == 1:
        z = N - d
    elif c == 2:
        z = 0
    return d, z


def c01(rng, q):
    sc = Script()
    for i in range(int(60 * q)):
        s = sc.new("sign")
        for j in range(4):
            d, z = interesting_dz(rng)
            s.sk(j, d).ms(j, z)
        for j in range(7):
            s("sign_full", k=rng.randrange(4), m=rng.randrange(4), ctx=s.ctx())
    for i in range(int(80 * q)):
        s = sc.new("raw")
        for j in range(7):
            d, z = interesting_dz(rng)
            k = rnz(rng)
            c = rng.randrange(10)
            r = None
            if c == 0:           # s = (n-1)/2 or its neighbours, either side
                r = mul(k)[0] % N
                z = (k * (HALF + rng.choice([-1, 0, 1, 2])) - r * d) % N
            elif c == 1:         # s small or large
                r = mul(k)[0] % N
                z = (k * rng.choice([1, 2, N - 1, N - 2, pat(rng)]) - r * d) % N
            elif c == 2:         # s = 0: not signable with this nonce
                r = mul(k)[0] % N
                z = (-r * d) % N
            elif c == 3:         # upper words of s equal to those of (n-1)/2
                r = mul(k)[0] % N
                ws = words_of(HALF)
                lo = rng.randrange(0, 5)
                for t in range(lo):
                    ws[t] = rng.getrandbits(32)
                z = (k * (w8(ws) % N) - r * d) % N
            s.sk(0, d).ms(0, z)
            s("sign_raw_full", k=0, m=0, nonce=h(k), ctx=s.ctx())
    return sc


def c02(rng, q):
    sc = Script()
    for i in range(int(260 * q)):
        s = sc.new("det")
        ks, zs = [], []
        for j in range(4):
            d, z = interesting_dz(rng)
            if j == 3 and rng.randrange(2):    # the same message, not reduced
                z = zs[0] + N if zs[0] < 2**256 - N else zs[0] % N
            ks.append(d)
            zs.append(z)
            s.sk(j, d).ms(j, z)
        for j in range(8):
            if rng.randrange(4) == 0 and s.ev[-1]["op"] == "sign":
                s.ev.append(dict(s.ev[-1]))      # again, the same call
            else:
                s("sign", k=rng.randrange(4), m=rng.randrange(4), g=j, i=j, ctx=s.ctx())
    for i in range(int(100 * q)):
        s = sc.new("fixed")
        for j in range(8):
            d, z = interesting_dz(rng)
            s.sk(0, d).ms(0, z)
            k = rnz(rng)
            if rng.randrange(3) == 0:
                k = rng.choice([1, 2, 3, N - 1, N - 2, HALF, HALF + 1])
            s("sign_raw", k=0, m=0, nonce=h(k), g=0, i=0, ctx=s.ctx())
    # a walk over keys and over messages: any state kept between calls shows
    for i in range(int(20 * q)):
        s = sc.new("walk")
        d, z = rng.randrange(1, N - 20), rng.randrange(N - 20)
        for j in range(12):
            s.sk(0, d + (j if j % 3 else 0)).ms(0, z + (j if j % 2 else 0))
            s("sign", k=0, m=0, g=0, i=0, ctx=s.ctx())
    return sc


# ---- C03, C04: verification and recovery ----------------------------------------------
def small_r_points(rng, n=12):
    """Points whose x coordinate is in [n, p) (as x) or below p - n, where r and r + n both are candidates."""
    out = []
    while len(out) < n:
        c = rng.randrange(3)
        x = rng.randrange(1, 60) if c == 0 else (PMN - 1 - rng.randrange(60) if c == 1 else rng.randrange(1, PMN))
        if rng.randrange(2):
            x += N
        pt = lift(x, rng.randrange(2))
        if pt:
            out.append(pt)
    return out


def sig_for(R, s, z):
    """(r, Q) such that (r, s) is a signature of z under Q with nonce point R."""
    r = R[0] % N
    ri = inv(r, N)
    Q = add(mul(s * ri, R), mul(-z * ri))
    return r, Q


def verify_cases(rng):
    """Yields (Q, z, r, s)."""
    c = rng.randrange(16)
    if c <= 1:            # honest
        d, z, k = rnz(rng), b256(rng) % N, rnz(rng)
        r = mul(k)[0] % N
        s = inv(k, N) * (z + r * d) % N
        yield mul(d), z, r, s
        if c == 0:
            yield mul(d), z, r, N - s
            yield neg(mul(d)), z, r, s
            yield beta(mul(d)), z, r, s
        else:
            b = 1 << rng.randrange(256)
            yield mul(d), z, (r ^ b) % N, s
            yield mul(d), z, r, (s ^ b) % N
            yield mul(d), (z ^ b) % N, r, s
            yield mul(d), z, s, r
    elif c == 2:          # a zero component
        d, z = rnz(rng), rsc(rng)
        yield mul(d), z, 0, rsc(rng)
        yield mul(d), z, rsc(rng), 0
        yield mul(d), z, 0, 0
        # with r = 0 a point whose x is 0 mod n would do
        k = rnz(rng)
        yield mul(d), z, 0, inv(k, N) * z % N
    elif c <= 5:          # x coordinate below p - n or at least n
        for R in small_r_points(rng, 3):
            s, z = rnz(rng), rsc(rng)
            r, Q = sig_for(R, s, z)
            if Q:
                yield Q, z, r, s
                yield Q, z, r, N - s
                yield Q, z, (r + 1) % N, s
    elif c == 6:          # r >= p - n whose r + n - p is the x coordinate
        x = rng.randrange(1, 2**60) if rng.randrange(2) else rng.randrange(1, 2 * N - P)
        R = lift(x, rng.randrange(2))
        r = x + P - N
        if R and r < N:
            # choose Q so that (z/s)G + (r/s)Q = R although r is not x mod n
            s, z = rnz(rng), rsc(rng)
            Q = add(mul(s * inv(r, N), R), mul(-z * inv(r, N)))
            if Q:
                yield Q, z, r, s
        # just below and at the bound
        for r in (PMN - 1, PMN, PMN + 1):
            R = lift(r + N if rng.randrange(2) and r + N < P else r, rng.randrange(2))
            if R:
                s, z = rnz(rng), rsc(rng)
                Q = add(mul(s * inv(r, N), R), mul(-z * inv(r, N)))
                if Q:
                    yield Q, z, r, s
    elif c == 7:          # the sum is infinite
        r, s, z = rnz(rng), rnz(rng), rnz(rng)
        yield mul(-z * inv(r, N)), z, r, s
        yield neg(mul(-z * inv(r, N))), z, r, s
    elif c <= 9:          # equal, opposite or related summands
        u1, u2 = rnz(rng), rnz(rng)
        d = u1 * inv(u2, N) * rng.choice([1, 2, 3, N - 2, inv(2, N), N - 3]) % N
        k = (u1 + u2 * d) % N
        if k:
            r = mul(k)[0] % N
            s = r * inv(u2, N) % N
            z = u1 * s % N
            yield mul(d), z, r, s
            yield mul(d), z, r, N - s
    else:                 # chosen multipliers and keys
        u1, u2 = rsc(rng), rnz(rng)
        d = rng.choice([rnz(rng), rng.randrange(1, 40), N - rng.randrange(1, 40), 2**rng.randrange(250)])
        k = (u1 + u2 * d) % N
        if k:
            r = mul(k)[0] % N
            s = r * inv(u2, N) % N
            z = u1 * s % N
            yield mul(d), z, r, s
            yield mul(d), (z + 1) % N, r, s


def c03(rng, q):
    sc = Script()
    n = 0
    while n < int(2600 * q):
        s = sc.new("ver")
        for _ in range(3):
            for (Q, z, r, sv) in verify_cases(rng):
                s.pk(0, Q).ms(0, z).sg(0, r, sv)
                s("verify", g=0, m=0, p=0, ctx=s.ctx())
                n += 1
    # the same key and r again and again with other messages: nothing may be remembered
    for i in range(int(12 * q)):
        s = sc.new("again")
        d, k = rnz(rng), rnz(rng)
        Q = mul(d)
        s.pk(0, Q).pk(1, neg(Q)).pk(2, beta(Q))
        r = mul(k)[0] % N
        for j in range(8):
            z = rng.randrange(N)
            sv = inv(k, N) * (z + r * d) % N
            s.ms(0, z).sg(0, r, sv)
            for p in (0, 1, 2, 0):
                s("verify", g=0, m=0, p=p, ctx=s.ctx())
    return sc


def recover_cases(rng):
    """Yields (z, r, s)."""
    c = rng.randrange(14)
    if c <= 1:
        d, z, k = rnz(rng), b256(rng) % N, rnz(rng)
        r = mul(k)[0] % N
        s = inv(k, N) * (z + r * d) % N
        yield z, r, s
        yield z, r, N - s
    elif c <= 4:
        x = rng.choice([rng.randrange(1, 40), PMN - rng.randrange(0, 40), PMN + rng.randrange(1, 10), rng.randrange(1, PMN)])
        yield rsc(rng), x % N, rnz(rng)
    elif c == 5:
        x = rng.choice([N - rng.randrange(1, 30), rng.randrange(PMN, N), 2**rng.randrange(129, 256) % N])
        yield rsc(rng), x, rnz(rng)
    elif c == 6:
        yield rsc(rng), 0, rnz(rng)
        yield rsc(rng), rnz(rng), 0
        yield 0, 0, 0
    elif c <= 8:          # the key would be infinite
        k, s = rnz(rng), rnz(rng)
        r = mul(k)[0] % N
        yield s * k % N, r, s
        yield (N - s * k) % N, r, s
    elif c <= 10:         # the nonce point is a small multiple of G: summands meet
        k = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 16, 32, 2**16, 2**128])
        r = mul(k)[0] % N
        yield rsc(rng), r, rsc(rng)
        u1, u2 = rsc(rng), rnz(rng)
        yield (-u1 * r) % N, r, (u2 * r) % N
    else:                 # chosen multipliers
        k = rnz(rng)
        r = mul(k)[0] % N
        u1, u2 = rsc(rng), rnz(rng)
        yield (-u1 * r) % N, r, (u2 * r) % N


def c04(rng, q):
    sc = Script()
    n = 0
    while n < int(2600 * q):
        s = sc.new("rec")
        for i in range(4):
            s.ri(i, i)
        for _ in range(3):
            for (z, r, sv) in recover_cases(rng):
                s.ms(0, z).sg(0, r, sv)
                for i in range(4):
                    e = s("recover", g=0, m=0, i=i, d=0, ctx=s.ctx())
                    n += 1
                    if rng.randrange(6) == 0:
                        s("sg_copy", g=0, d=1)
                        s("verify", g=1, m=0, p=0, ctx=s.ctx())
    return sc


# ---- C05: derivation ----------------------------------------------------------------------
def comb_scalars(rng):
    """Scalars that use chosen entries of the generator comb."""
    out = []
    for i in range(16):
        v = int(("%x" % i) * 64, 16)
        out.append((v - BLIND) % N)
    for j in range(64):
        for i in range(16):
            base = rng.getrandbits(256) & ~(15 << (4 * j)) | (i << (4 * j))
            out.append((base - BLIND) % N)
    out += [(x - BLIND) % N for x in (0, 1, 2, N - 1, N - 2)] + [N - BLIND, BLIND, N - BLIND - 1, N - BLIND + 1]
    return [x for x in out if 0 < x < N]


def c05(rng, q):
    sc = Script()
    xs = [x for x in SC if x] + comb_scalars(rng) + [rnz(rng) for _ in range(int(1200 * q))]
    if q > 2:
        for _ in range(int(q)):
            xs += comb_scalars(rng)
    rng.shuffle(xs)
    for i in range(0, len(xs), 12):
        s = sc.new("derive")
        for j, x in enumerate(xs[i:i + 12]):
            s.sk(0, x)("pk_derive", k=0, d=j, ctx=s.ctx())
        s("pk_eq", p=0, q=min(1, len(xs[i:i + 12]) - 1))
    return sc


# ---- C06, C07: public keys --------------------------------------------------------------
def small_y_points():
    """Points whose y coordinate is below 2^256 - p, so that y + p also fits in 32 bytes."""
    out = []
    for y in range(1, 120):
        x = cuberoot(y * y - 7)
        if x is not None:
            w = BETA
            out += [(x, y), (x * w % P, y), (x * w * w % P, y)]
    return out


def small_x_points():
    out = []
    for x in list(range(1, 60)):
        for o in (0, 1):
            pt = lift(x, o)
            if pt:
                out.append(pt)
    return out


SMALL_Y = small_y_points()
SMALL_X = small_x_points()


def edge_x(rng):
    c = rng.randrange(6)
    if c == 0:
        return rng.choice([P - rng.randrange(1, 40), N + rng.randrange(0, 40), N - rng.randrange(1, 40)])
    if c == 1:
        return pat(rng, P)
    if c == 2:
        return rng.getrandbits(rng.choice([8, 26, 27, 52, 64, 128, 200, 230]))
    if c == 3:      # all-ones limbs
        return sum(((1 << 26) - 1 if rng.randrange(3) else rng.getrandbits(26)) << (26 * i) for i in range(10)) % 2**256 % P
    if c == 4:
        return rng.choice(SMALL_X)[0]
    return rng.randrange(P)


def some_point(rng):
    c = rng.randrange(8)
    if c == 0:
        return rng.choice(SMALL_Y)
    if c == 1:
        return rng.choice(SMALL_X)
    if c == 2:
        return mul(rnz(rng))
    while True:
        pt = lift(edge_x(rng), rng.randrange(2))
        if pt:
            return pt


def decode_calls(s, rng, b):
    """b: hex of any length."""
    l = len(b) // 2
    k = rng.randrange(4)
    if l == 65 and k == 0:
        s("pk_parse", d=0, b=b)
    elif l == 33 and k == 0:
        s("pk_parse_comp", d=0, b=b)
    else:
        s("pk_parse_slice", d=0, b=b, fmt=rng.choice(["none", "none", "full", "comp", "raw"]))
    if l in (33, 64, 65) and rng.randrange(3) == 0:
        s("pk_parse_slice", d=1, b=b, fmt={33: "comp", 64: "raw", 65: "full"}[l])


def c06(rng, q):
    sc = Script()
    for i in range(int(330 * q)):
        s = sc.new("dec")
        for _ in range(10):
            pt = some_point(rng)
            x, y = pt
            c = rng.randrange(20)
            if c <= 2:
                t = rng.choice([2, 3, 4, 6, 7])
                b = "%02x" % t + h(x) + h(y)
            elif c == 3:
                b = "%02x" % rng.randrange(256) + h(x) + h(y)
            elif c == 4:
                b = "%02x" % rng.randrange(256) + h(x)
            elif c <= 6:
                b = "%02x" % rng.choice([2, 3]) + h(x)
            elif c == 7:
                b = h(x) + h(y)
            elif c == 8:      # off the curve by one bit
                k = rng.randrange(512)
                v = (x << 256 | y) ^ (1 << k)
                b = rng.choice(["04", "06", "07", ""]) + h(v, 64)
            elif c == 9:      # x not a coordinate
                xx = edge_x(rng)
                b = "%02x" % rng.choice([2, 3]) + h(xx)
            elif c == 10:     # y + p
                x, y = rng.choice(SMALL_Y)
                b = rng.choice(["04", "06", "07", ""]) + h(x) + h(y + P)
            elif c == 11:     # x + p, full and compressed
                x, y = rng.choice(SMALL_X)
                b = rng.choice(["04" + h(x + P) + h(y), h(x + P) + h(y), "02" + h(x + P), "03" + h(x + P),
                                "06" + h(x + P) + h(y), "07" + h(x + P) + h(y)])
            elif c == 12:     # coordinates at and around p
                v = rng.choice([P, P + 1, P - 1, P + 2**32, 2**256 - 1, P + rng.randrange(2**32 + 977)])
                b = rng.choice(["02", "03"]) + h(v) if rng.randrange(2) else rng.choice(["04", "06", "07", ""]) + rng.choice([h(v) + h(y), h(x) + h(v)])
            elif c == 13:     # zero and other constants
                v = rng.choice([0, 0, 1, 2**256 - 1])
                w = rng.choice([0, 0, 1, 2**256 - 1])
                b = rng.choice(["00", "02", "03", "04", "06", "07", ""]) + h(v) + (h(w) if rng.randrange(2) else "")
            elif c == 14:     # other lengths
                l = rng.choice(list(range(0, 70)) + [96, 128, 129, 130, 200])
                b = bytes(rng.getrandbits(8) for _ in range(l)).hex()
                if l and rng.randrange(2):
                    b = "%02x" % rng.choice([2, 3, 4, 6, 7]) + b[2:]
            elif c == 15:     # a valid encoding cut or extended
                b = rng.choice([full(pt), comp(pt), h(x) + h(y)])
                b = b[:-2] if rng.randrange(2) else b + rng.choice(["00", "01", b[-2:]])
            elif c == 16:     # parity of hybrid forms
                b = rng.choice(["06", "07"]) + h(x) + h(y)
            elif c == 17:     # same x, other y
                b = rng.choice(["04", "06", "07"]) + h(x) + h(P - y)
            elif c == 18:     # a point of another curve with the same addition formulas
                xx, yy = rng.randrange(P), rng.randrange(P)
                b = rng.choice(["04", "06", "07"]) + h(xx) + h(yy)
            else:
                b = rng.choice([full(pt), comp(pt)])
            decode_calls(s, rng, b)
    for i in range(int(60 * q)):
        s = sc.new("affine")
        for _ in range(10):
            x, y = some_point(rng)
            c = rng.randrange(5)
            if c == 0:
                y ^= 1 << rng.randrange(256)
            if c == 1:
                x, y = rng.choice([rng.choice(SMALL_Y), rng.choice(SMALL_X)])
                if x < 2**256 - P and rng.randrange(2):
                    x += P
                if y < 2**256 - P and rng.randrange(2):
                    y += P
            s("pk_from_affine", d=0, x=h(x), y=h(y), rep=rng.randrange(7), inf=rng.randrange(12) == 0)
    # every tag, with a good even and odd point
    for e in (lift(SMALL_X[0][0], 0), lift(SMALL_X[0][0], 1)):
        s = sc.new("tags")
        for t in range(256):
            s("pk_parse", d=0, b="%02x" % t + h(e[0]) + h(e[1]))
            s("pk_parse_comp", d=0, b="%02x" % t + h(e[0]))
    # every length with every requested format
    for fmt in ("none", "full", "comp", "raw"):
        s = sc.new("lens")
        for l in range(0, 70):
            s("pk_parse_slice", d=0, b=("04" + h(e[0]) + h(e[1]) + "00" * 5)[:2 * l], fmt=fmt)
            s("pk_parse_slice", d=0, b=("02" + h(e[0]) + h(e[1]) + "00" * 5)[:2 * l], fmt=fmt)
            s("pk_parse_slice", d=0, b=(h(e[0]) + h(e[1]) + "00" * 6)[:2 * l], fmt=fmt)
    return sc


def c07(rng, q):
    sc = Script()
    for i in range(int(150 * q)):
        s = sc.new("forms")
        d, t = rnz(rng), rnz(rng)
        Q = mul(d)
        ways = []

        def way(op, **a):
            s(op, **a)
            ways.append(a.get("d", a.get("p")))
        s.sk(0, d).sk(1, t)
        way("pk_derive", k=0, d=0, ctx=s.ctx())
        way("pk_parse", d=1, b=full(Q))
        way("pk_parse_comp", d=2, b=comp(Q))
        way("pk_from_affine", d=3, x=h(Q[0]), y=h(Q[1]), rep=rng.randrange(7), inf=False)
        # d = (d - t) + t
        if d != t:
            s.sk(2, (d - t) % N)("pk_derive", k=2, d=4, ctx=s.ctx())
            way("pk_tadd", p=4, t=1, ctx=s.ctx())
        # d = (d / t) t
        s.sk(3, d * inv(t, N) % N)("pk_derive", k=3, d=5, ctx=s.ctx())
        way("pk_tmul", p=5, t=1, ctx=s.ctx())
        # Q = A + B
        A = mul(t)
        B = add(Q, neg(A))
        if B:
            s.pk(6, A).pk(7, B)
            way("pk_combine", ps=rng.choice([[6, 7], [7, 6]]), d=8)
        way("pk_combine", ps=[0], d=9)
        # recovery
        k, z = rnz(rng), rsc(rng)
        R = mul(k)
        r = R[0] % N
        sv = inv(k, N) * (z + r * d) % N
        if sv:
            s.ms(0, z).sg(0, r, sv).ri(0, (R[1] & 1) + (2 if R[0] >= N else 0))
            way("recover", g=0, m=0, i=0, d=10, ctx=s.ctx())
        for w in ways:
            s("pk_ser", p=w)("pk_serc", p=w)
        for w in ways:
            s("pk_eq", p=ways[0], q=w)("pk_eq", p=w, q=ways[0])
        s.pk(11, neg(Q)).pk(12, beta(Q)).pk(13, mul(d + 1) if d + 1 < N else G)
        for w in (11, 12, 13):
            s("pk_eq", p=rng.choice(ways), q=w)
            s("pk_eq", p=w, q=rng.choice(ways))
    for i in range(int(60 * q)):
        s = sc.new("round")
        for j in range(6):
            pt = some_point(rng)
            s("pk_from_affine", d=0, x=h(pt[0]), y=h(pt[1]), rep=rng.randrange(7), inf=False)
            s("pk_ser", p=0)("pk_serc", p=0)
            s("pk_parse_slice", d=1, b=full(pt), fmt="none")("pk_parse_slice", d=2, b=comp(pt), fmt="none")
            s("pk_parse_slice", d=3, b=h(pt[0]) + h(pt[1]), fmt="none")
            s("pk_parse", d=4, b="%02x" % (6 + (pt[1] & 1)) + full(pt)[2:])
            for j in range(1, 5):
                s("pk_eq", p=0, q=j)("pk_eq", p=j, q=0)("pk_ser", p=j)("pk_serc", p=j)
            s("pk_affine", p=0, d=5)("pk_eq", p=5, q=1)
    return sc


# ---- C08: secret keys ---------------------------------------------------------------------
def c08(rng, q):
    sc = Script()
    xs = SC + [N, N + 1, N + 2, P - 1, P, P + 1, 2**256 - 1, 2**256 - 2] + [b256(rng) for _ in range(int(1200 * q))]
    for i in range(8):
        for d in (-1, 1):
            ws = words_of(N)
            ws[i] = (ws[i] + d) & 0xFFFFFFFF
            xs.append(w8(ws))
    for i in range(0, len(xs), 8):
        s = sc.new("sk")
        for x in xs[i:i + 8]:
            op = rng.choice(["sk_parse", "sk_parse_slice", "sk_from_scalar"])
            s(op, d=0, b=h(x))
            s(rng.choice(["sk_ser", "sk_hex", "sk_scalar", "sk_is_zero"]), k=0)
            s("sk_hex", k=0)
            if rng.randrange(4) == 0:
                s("sk_inv", k=0, d=1)("sk_ser", k=1)("sk_inv", k=1, d=2)("sk_eq", k=0, t=2)
            s("sk_from_scalar", d=3, b=h(x))
    s = sc.new("len")
    for l in list(range(0, 70)) + [128, 255, 256]:
        s("sk_parse_slice", d=0, b=("00" * 31 + "01" + "22" * 300)[:2 * l])
        s("sk_parse_slice", d=0, b="11" * l)
    s("sk_default", d=1)("sk_ser", k=1)("sk_hex", k=1)
    for i in range(int(60 * q)):
        s = sc.new("rnd")
        for _ in range(6):
            blocks = []
            for _ in range(rng.choice([0, 0, 1, 2, 3, 7])):
                blocks.append(rng.choice([0, N, N + 1, 2**256 - 1, rng.randrange(N, 2**256), P]))
            blocks.append(rng.choice([1, N - 1, rnz(rng)]))
            blocks.append(rnz(rng))
            s("sk_random", d=0, b="".join(h(b) for b in blocks))("sk_ser", k=0)
    return sc


# ---- C09: tweaks --------------------------------------------------------------------------
def c09(rng, q):
    sc = Script()
    for i in range(int(220 * q)):
        s = sc.new("tweak")
        d = rng.choice([rnz(rng), rng.randrange(1, 40), N - rng.randrange(1, 40), rnz(rng)])
        s.sk(0, d)("pk_derive", k=0, d=0, ctx=s.ctx())
        for _ in range(5):
            c = rng.randrange(14)
            t = rnz(rng)
            if c == 0:
                t = N - d
            elif c == 1:
                t = d
            elif c == 2:
                t = rng.choice([1, 2, 3, N - 1, N - 2, N - 3])
            elif c == 3:     # intermediate sums meet: P = -(t - low digit) G and alike
                t = d + rng.choice([-1, 1]) * rng.randrange(0, 2**16)
            elif c == 4:
                t = -d + rng.choice([-1, 1]) * rng.randrange(0, 2**16)
            elif c == 5:
                t = d * 2**rng.randrange(1, 17)
            elif c == 6:
                t = -d * 2**rng.randrange(1, 17)
            elif c == 7:
                t = rng.randrange(1, 2**17)
            t %= N
            if t == 0:
                t = 1
            s.sk(1, t)
            if c == 8:
                s("sk_clear", k=1)
                t = 0
            mul_ = rng.randrange(3) == 0
            if mul_:
                s("sk_tmul", k=0, t=1)("pk_tmul", p=0, t=1, ctx=s.ctx())
                d = d * t % N if t else d
            else:
                s("sk_tadd", k=0, t=1)("pk_tadd", p=0, t=1, ctx=s.ctx())
                d = (d + t) % N if (d + t) % N else d
        s("pk_derive", k=0, d=1, ctx=s.ctx())("pk_eq", p=0, q=1)("pk_ser", p=0)("sk_ser", k=0)
    # keys that are not known multiples, and small odd multiples against small tweaks
    for i in range(int(60 * q)):
        s = sc.new("twpk")
        for _ in range(4):
            m = rng.choice([rng.randrange(1, 34), N - rng.randrange(1, 34), 2**rng.randrange(17), 3 * 2**rng.randrange(17)]) % N
            s.pk(0, mul(m) if rng.randrange(4) else some_point(rng))
            s.sk(0, rng.choice([rng.randrange(1, 70), N - rng.randrange(1, 70), m, N - m, 2 * m % N, 2**rng.randrange(256) % N]))
            s("pk_tadd", p=0, t=0, ctx=s.ctx())("pk_tmul", p=0, t=0, ctx=s.ctx())
    return sc


# ---- C10: combination ------------------------------------------------------------------------
def c10(rng, q):
    sc = Script()
    for i in range(int(420 * q)):
        s = sc.new("comb")
        n = 14
        pts = []
        base = some_point(rng)
        for j in range(n):
            c = rng.randrange(9)
            prev = rng.choice(pts) if pts else base
            if c == 0:
                p = some_point(rng)
            elif c == 1:
                p = prev
            elif c == 2:
                p = neg(prev)
            elif c == 3:
                p = beta(neg(prev))
            elif c == 4:
                p = beta(beta(neg(prev)))
            elif c == 5:
                p = add(prev, rng.choice(pts)) if pts else prev
            elif c == 6:
                t = None
                for u in rng.sample(pts, min(len(pts), rng.randrange(1, 4))):
                    t = add(t, u)
                p = neg(t)
            elif c == 7:
                p = mul(rng.randrange(1, 20))
            else:       # so that a sum has the opposite y and another x
                t = None
                for u in rng.sample(pts, min(len(pts), 2)):
                    t = add(t, u)
                p = beta(neg(t)) if t else base
            if p is None:
                p = base
            pts.append(p)
            if rng.randrange(3):
                s.pk(j, p)
            else:
                s("pk_from_affine", d=j, x=h(p[0]), y=h(p[1]), rep=rng.randrange(7), inf=False)
        for _ in range(9):
            k = rng.choice([1, 2, 2, 3, 3, 4, 6, 14])
            ps = [rng.randrange(n) for _ in range(k)]
            if rng.randrange(3) == 0:      # close the sum to infinity or to a known point
                ps = list(range(0, k)) if rng.randrange(2) else rng.sample(range(n), k)
            s("pk_combine", ps=ps, d=15)
            if rng.randrange(2):
                s("pk_combine", ps=ps[::-1], d=14)
        # a list that sums to infinity, and one more
        ps = rng.sample(range(n), 3)
        t = None
        for j in ps:
            t = add(t, pts[j])
        if t:
            s.pk(14, neg(t))
            for ord_ in ([14] + ps, ps + [14], ps + [14, 14], ps + [14] + ps, [ps[0], 14, ps[1], ps[2]]):
                s("pk_combine", ps=ord_, d=15)
        s("pk_combine", ps=[], d=15)
    # long lists: of one key, of a few in turn, and sums that meet infinity on the way
    for k in [16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513] + ([1000, 1024, 4096, 65536, 65537] if q > 1 else []):
        s = sc.new("list")
        base = some_point(rng)
        s.pk(0, base)
        for j in range(1, 5):
            s.pk(j, some_point(rng))
        s.pk(5, neg(base))
        s("pk_combine", ps=[rng.randrange(1, 5)] * k, d=15)
        s("pk_combine", ps=[rng.randrange(5) for _ in range(k)], d=15)
        s("pk_combine", ps=[0, 5] * (k // 2) + [1] * (1 + k % 2), d=14)
        s("pk_combine", ps=[0, 5] * ((k + 1) // 2), d=14)
    # lists in which the block from one place to another cancels, or what comes before a place
    for k in [2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 32, 64] + ([128, 256, 512] if q > 1 else []):
        s = sc.new("block")
        base, other = some_point(rng), some_point(rng)
        s.pk(0, base).pk(1, other).pk(2, some_point(rng)).pk(3, neg(base))
        t = None
        for _ in range(k - 1):
            t = add(t, other)
        s.pk(4, neg(t))
        c = [1] * (k - 1) + [4]                         # k keys that cancel, only as a whole
        d = ([0, 3] * k)[:k] if k % 2 == 0 else c       # or in pairs
        for z in (c, d):
            a = [rng.randrange(3) for _ in range(k)]
            s("pk_combine", ps=a + z + [2], d=15)("pk_combine", ps=z + a, d=15)("pk_combine", ps=a + z, d=15)
            s("pk_combine", ps=z + z + [0], d=14)("pk_combine", ps=a + a[:1] + z + [2, 0], d=14)
            s("pk_combine", ps=[2] + z + a + z, d=15)
    return sc


# ---- C11: key agreement ------------------------------------------------------------------------
def c11(rng, q):
    sc = Script()
    xs = [x for x in SC if x]
    rng.shuffle(xs)
    xs = xs[:int(min(len(xs), 400 * q))] + [rnz(rng) for _ in range(int(500 * q))] + [1, 2, 3, 4, N - 1, N - 2, N - 3, HALF, HALF + 1, HALF - 1, HALF + 2]
    for i in range(0, len(xs), 6):
        s = sc.new("ecdh")
        s.pk(0, some_point(rng))
        for x in xs[i:i + 6]:
            if rng.randrange(3) == 0:
                s.pk(0, some_point(rng))
            elif rng.randrange(4) == 0:
                pt = some_point(rng)
                s("pk_from_affine", d=0, x=h(pt[0]), y=h(pt[1]), rep=rng.randrange(7), inf=False)
            s.sk(0, x)("ecdh", p=0, k=0, dig=rng.choice(["id33", "sha256"]), ctx=s.ctx())
    for i in range(int(60 * q)):
        s = sc.new("both")
        a, b = rnz(rng), rnz(rng)
        s.sk(0, a).sk(1, b)("pk_derive", k=0, d=0, ctx=s.ctx())("pk_derive", k=1, d=1, ctx=s.ctx())
        s("ecdh", p=1, k=0, dig="sha256", ctx=s.ctx())("ecdh", p=0, k=1, dig="sha256", ctx=s.ctx())
        s("sk_clear", k=0)("ecdh", p=1, k=0, dig="sha256", ctx=s.ctx())("ecdh", p=1, k=0, dig="id33", ctx=s.ctx())
    return sc


# ---- C12, C13: DER ---------------------------------------------------------------------------------
def derint(v):
    b = v.to_bytes((v.bit_length() + 7) // 8 or 1, "big")
    return (b"\0" if b[0] >= 128 else b"") + b


def tlv(c, tag=2, ln=None):
    return bytes([tag]) + (bytes([len(c)]) if ln is None else ln) + c


def lens(rng, n):
    """Ways of writing a length."""
    c = rng.randrange(10)
    if c < 4:
        return bytes([n & 127])
    if c == 4:
        return b"\x81" + bytes([n & 255])
    if c == 5:
        return b"\x82" + n.to_bytes(2, "big")
    if c == 6:
        k = rng.randrange(1, 12)
        return bytes([0x80 + k]) + (n & (256**k - 1)).to_bytes(k, "big")
    if c == 7:
        return bytes([rng.choice([0x80, 0xff, 0xfe, 0x7f, 0x88, 0x84, 0x89])])
    if c == 8:
        k = rng.choice([7, 8, 9, 20, 120, 126, 127])
        return bytes([0x80 + k]) + bytes(k - 1) + bytes([n & 255])
    k = rng.choice([1, 2, 3, 7, 8])
    return bytes([0x80 + k]) + bytes(rng.choice([0, 1, 0xff, 0x7f, 0x80]) for _ in range(k))


def content(rng):
    c = rng.randrange(12)
    if c <= 2:
        return derint(rsc(rng))
    if c == 3:
        return derint(rng.choice([N, N + 1, N - 1, 2**256 - 1, P, 2**255]))
    if c == 4:
        return bytes(rng.choice([0, 1, 2, 3, 31, 32, 33])) + derint(rng.choice([0, 1, 127, 128, 255, rsc(rng)]))
    if c == 5:
        return rsc(rng).to_bytes(32, "big")
    if c == 6:
        return bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 2, 31, 32, 33, 34, 35, 60])))
    if c == 7:
        return b""
    if c == 8:     # negative
        return bytes([rng.choice([0x80, 0xff, 0x81])]) + bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 5, 31, 32])))
    if c == 9:     # an integer in an integer, possibly over-long
        return tlv(derint(rsc(rng)) if rng.randrange(2) else bytes([1] + [2] * rng.randrange(0, 34)))
    if c == 10:
        return b"\0" + bytes([0x80 | rng.getrandbits(7)]) + bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 30, 31, 31, 32])))
    return bytes([rng.choice([0, 1, 2, 127, 128, 255])]) * rng.choice([1, 2, 3, 31, 32, 33, 34])


def der_cases(rng):
    c = rng.randrange(18)
    r, s = derint(rsc(rng)), derint(rsc(rng))
    good = b"\x30" + bytes([len(tlv(r) + tlv(s))]) + tlv(r) + tlv(s)
    if c == 0:
        return good
    if c == 1:       # one octet changed
        b = bytearray(good)
        i = rng.randrange(len(b)) if rng.randrange(2) else rng.choice([0, 1, 2, 3, 4, len(r) + 4, len(r) + 5, len(r) + 6]) % len(b)
        b[i] = rng.choice([b[i] ^ (1 << rng.randrange(8)), rng.getrandbits(8), 0, 0x80, 0xff, (b[i] + 1) & 255, (b[i] - 1) & 255])
        return bytes(b)
    if c == 2:       # cut
        return good[:rng.randrange(len(good) + 1)]
    if c == 3:       # extended
        return good + bytes(rng.choice([0, 1, 0x30, 2]) for _ in range(rng.randrange(1, 4)))
    if c <= 6:       # well nested, odd contents
        body = tlv(content(rng)) + tlv(content(rng))
        return b"\x30" + bytes([len(body) & 127]) + body
    if c <= 9:       # odd lengths
        a, b = content(rng), content(rng)
        body = tlv(a, ln=lens(rng, len(a))) + tlv(b, ln=lens(rng, len(b)))
        return b"\x30" + (lens(rng, len(body)) if rng.randrange(2) else bytes([len(body) & 127])) + body
    if c == 10:      # inserted or removed octet
        b = bytearray(good)
        i = rng.randrange(len(b))
        if rng.randrange(2):
            del b[i]
        else:
            b.insert(i, rng.choice([0, 0, 1, 0xff, b[i]]))
        if rng.randrange(2):
            b[1] = (len(b) - 2) & 127
        return bytes(b)
    if c == 11:      # an over-long integer whose tail is itself an integer, and a missing second integer
        inner = tlv(derint(rng.choice([rsc(rng), 1])))
        pad = 33 - len(inner) + rng.randrange(0, 4)
        cont = rng.choice([bytes([1] * max(0, pad)) + inner, inner + bytes([1] * max(0, pad)), b"\0" + inner])
        body = tlv(cont) + (tlv(s) if rng.randrange(2) else b"")
        return b"\x30" + bytes([len(body) & 127]) + body
    if c == 12:      # long sequences
        body = tlv(r) + tlv(s)
        k = rng.choice([128 - len(body), 200 - len(body), rng.randrange(1, 200)])
        body += bytes(max(k, 0))
        return b"\x30" + lens(rng, len(body)) + body
    if c == 13:      # zero-length components at the end
        a = rng.choice([b"", b"", r])
        b = rng.choice([b"", b"", s])
        body = tlv(a) + tlv(b) + rng.choice([b"", b"", b"\0"])
        return b"\x30" + bytes([len(body)]) + body
    if c >= 16:      # empty components behind long lengths, at or near the end
        z = lambda: bytes([0x80 + (k := rng.choice([0, 1, 2, 3, 8, 9, 20]))]) + bytes(k)
        a = tlv(b"", ln=z()) if rng.randrange(2) else tlv(r)
        b = tlv(b"", ln=z()) if rng.randrange(3) else tlv(bytes(rng.randrange(3)), ln=lens(rng, rng.randrange(3)))
        body = a + b + rng.choice([b"", b"", b"", b"\0", b"\2"])
        return b"\x30" + (lens(rng, len(body)) if rng.randrange(3) == 0 else bytes([len(body) & 127])) + body
    if c == 14:      # arbitrary octets from a small alphabet
        return bytes(rng.choice([0x30, 2, 2, 0, 1, 3, 4, 6, 8, 0x80, 0x81, 0x82, 0xff, 0x7f]) for _ in range(rng.randrange(0, 14)))
    b = bytearray(good)
    for _ in range(rng.randrange(1, 4)):
        b[rng.randrange(len(b))] = rng.getrandbits(8)
    return bytes(b)


def der_small(sc, ops, rng, q):
    """All short strings over small alphabets behind the fixed tags."""
    import itertools
    al = [0, 1, 2, 0x7f, 0x80, 0x81, 0x83]
    cases = []
    for l in range(0, 5):
        for t in itertools.product([0, 1, 2, 3, 0x30, 0x80, 0x81], repeat=l):
            cases.append(bytes(t))
            if l <= 4:
                cases.append(b"\x30" + bytes(t))
    # 30 L 02 a x.. 02 b y..
    for a in range(0, 3):
        for b in range(0, 3):
            for xs in itertools.product(al, repeat=a):
                for ys in itertools.product(al if q > 2 else [0, 1, 0x7f, 0x80], repeat=b):
                    body = bytes([2, a]) + bytes(xs) + bytes([2, b]) + bytes(ys)
                    for L in (len(body), len(body) - 1, len(body) + 1):
                        if L == len(body) or rng.randrange(8) == 0:
                            cases.append(bytes([0x30, L]) + body)
    if q < 2:
        rng.shuffle(cases)
        cases = cases[:2500]
    for i in range(0, len(cases), 40):
        s = sc.new("small")
        for c in cases[i:i + 40]:
            for op in ops:
                s(op, d=0, b=c.hex())


def der_regress(s, ops):
    """Shapes that once went wrong."""
    for hx in ("3006020101020100", "30060201010200", "3005020101" "0200", "300702010102010000",
               "3023022102" + "1f" + "01" * 31 , "3004020002" "00", "30040200" "0200", "3080", "30", ""):
        for op in ops:
            s(op, d=0, b=hx)
    for n in (33, 34, 35):
        inner = bytes([2, n - 2]) + bytes([1] * (n - 2))
        body = tlv(inner)
        for op in ops:
            s(op, d=0, b=(b"\x30" + bytes([len(body)]) + body).hex())
    for n in (33, 34, 40, 100):
        body = tlv(bytes([1]) * n) + tlv(b"\x05")
        for op in ops:
            s(op, d=0, b=(b"\x30" + bytes([len(body)]) + body).hex())
        body = tlv(b"\x05") + tlv(bytes([1]) * n)
        for op in ops:
            s(op, d=0, b=(b"\x30" + bytes([len(body)]) + body).hex())


def c12(rng, q):
    sc = Script()
    der_regress(sc.new("regress"), ["sg_der"])
    der_small(sc, ["sg_der"], rng, q)
    for i in range(int(500 * q)):
        s = sc.new("der")
        for _ in range(12):
            s("sg_der", d=0, b=der_cases(rng).hex())
    xs = SC + [rsc(rng) for _ in range(int(800 * q))]
    for i in range(0, len(xs), 6):
        s = sc.new("enc")
        for x in xs[i:i + 6]:
            y = rsc(rng)
            if rng.randrange(2):
                x, y = y, x
            s.sg(0, x, y)("sg_ser_der", g=0)
            body = tlv(derint(x)) + tlv(derint(y))
            s("sg_der", d=1, b=(b"\x30" + bytes([len(body)]) + body).hex())("sg_eq", g=0, h=1)
    return sc


def c13(rng, q):
    sc = Script()
    der_regress(sc.new("regress"), ["sg_lax", "sg_der"])
    der_small(sc, ["sg_lax"], rng, q)
    for i in range(int(600 * q)):
        s = sc.new("lax")
        for _ in range(12):
            b = der_cases(rng).hex()
            s("sg_lax", d=0, b=b)
            if rng.randrange(6) == 0:
                s("sg_der", d=1, b=b)("sg_eq", g=0, h=1)
    return sc


# ---- C14, C15 ------------------------------------------------------------------------------------------
def c14(rng, q):
    sc = Script()
    around = [N, N - 1, N + 1, 0, 1, 2**256 - 1, P]
    for i in range(8):
        for d in (-1, 1):
            ws = words_of(N)
            ws[i] = (ws[i] + d) & 0xFFFFFFFF
            around.append(w8(ws))
    for i in range(int(420 * q)):
        s = sc.new("sig")
        for _ in range(5):
            r = rng.choice([b256(rng), rng.choice(around)])
            v = rng.choice([b256(rng), rng.choice(around)])
            b = h(r) + h(v)
            for op in ("sg_parse_std", "sg_parse_ovf", "sg_std_slice", "sg_ovf_slice"):
                if rng.randrange(2):
                    s(op, d=0, b=b)("sg_ser", g=0)
            s(rng.choice(["ms_parse", "ms_slice"]), d=0, b=h(r))("ms_ser", m=0)
    s = sc.new("len")
    for l in list(range(0, 70)) + [96, 127, 128, 129]:
        for op in ("sg_std_slice", "sg_ovf_slice", "ms_slice"):
            s(op, d=0, b="11" * l)
            s(op, d=0, b=("00" * 31 + "01" + "00" * 31 + "02" + "03" * 80)[:2 * l])
    for op in ("ri_parse", "ri_rpc"):
        s = sc.new("ri")
        for n in range(256):
            s(op, d=n % 16, n=n)("ri_ser", i=n % 16)
    return sc


def c15(rng, q):
    sc = Script()
    vals = [0, 1, 2, HALF, HALF + 1, HALF - 1, HALF + 2, N - 1, N - 2, 2**255, 2**255 - 1]
    for i in range(8):
        for d in (-1, 1, 0xFFFF, -0xFFFF):
            ws = words_of(HALF)
            ws[i] = (ws[i] + d) & 0xFFFFFFFF
            vals.append(w8(ws) % N)
    for i in range(int(400 * q)):
        s = sc.new("low")
        for _ in range(8):
            c = rng.randrange(4)
            v = rng.choice(vals) if c == 0 else rsc(rng)
            if c == 1:
                ws = words_of(HALF)
                for t in range(rng.randrange(1, 8)):
                    ws[t] = rng.getrandbits(32)
                v = w8(ws) % N
            r = rsc(rng)
            s.sg(0, r, v)("sg_norm", g=0)("sg_norm", g=0)
            s.sg(1, r, (N - v) % N)("sg_norm", g=1)("sg_eq", g=0, h=1)
    for i in range(int(40 * q)):
        s = sc.new("ver")
        d, k, z = rnz(rng), rnz(rng), rsc(rng)
        r = mul(k)[0] % N
        v = inv(k, N) * (z + r * d) % N
        s.pk(0, mul(d)).ms(0, z)
        for x in (v, (N - v) % N, (v + 1) % N):
            s.sg(0, r, x)("verify", g=0, m=0, p=0, ctx=s.ctx())("sg_norm", g=0)("verify", g=0, m=0, p=0, ctx=s.ctx())
    return sc


# ---- C16: serde -------------------------------------------------------------------------------------------
def c16(rng, q):
    sc = Script()

    def t(x):
        return x.hex() if isinstance(x, bytes) else x.encode().hex()
    for i in range(int(170 * q)):
        s = sc.new("serde")
        for _ in range(4):
            pt = some_point(rng)
            if rng.randrange(3):
                s.pk(0, pt)
            else:
                s("pk_from_affine", d=0, x=h(pt[0]), y=h(pt[1]), rep=rng.randrange(7), inf=False)
            s("pk_json", p=0)("pk_bin", p=0)
            raw = bytes.fromhex(rng.choice([full(pt), comp(pt), full(pt)[2:], "%02x" % (6 + (pt[1] & 1)) + full(pt)[2:]]))
            text = base64.b64encode(raw).decode()
            s("pk_from_json", d=1, t=t(text))("pk_eq", p=0, q=1)
            s("pk_from_bin", d=2, b=raw.hex())("pk_eq", p=0, q=2)
            c = rng.randrange(12)
            bad = bytearray(raw)
            if c == 0:
                bad[rng.randrange(len(bad))] ^= 1 << rng.randrange(8)
            elif c == 1:
                bad = bad[:-1]
            elif c == 2:
                bad += b"\0"
            elif c == 3:
                bad = bytearray(rng.getrandbits(8) for _ in range(rng.randrange(0, 70)))
            elif c == 4:
                bad[0] = rng.getrandbits(8)
            elif c == 5:
                bad = bytearray(bytes.fromhex("04" + h(pt[0]) + h(P + rng.randrange(900))))
            bt = base64.b64encode(bytes(bad)).decode()
            if c == 6:
                bt = bt.rstrip("=")
            elif c == 7:
                bt = bt.replace("+", "-").replace("/", "_")
            elif c == 8:
                k = rng.randrange(len(bt) + 1)
                bt = bt[:k] + rng.choice([" ", "\n", "=", "A", "*", "\t", "é"]) + bt[k:]
            elif c == 9:
                bt += rng.choice(["=", "==", "====", "AAAA", "\n"])
            elif c == 10 and bt.endswith("="):     # not canonical: bits left over
                al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
                core = bt.rstrip("=")
                v = al.index(core[-1])
                m = 4 - len(core) % 4 if len(core) % 4 else 0
                bt = core[:-1] + al[v ^ (1 << rng.randrange(0, 2 * m))] + "=" * m if m else bt
            elif c == 11:
                bt = bt[:-rng.randrange(1, 5)]
            s("pk_from_json", d=3, t=t(bt))
            s("pk_from_bin", d=3, b=bytes(bad).hex())
    s = sc.new("docs")
    for d in ("null", "0", "[]", "{}", "true", "[4,5]", '"', "1.5", '{"x":1}'):
        s("pk_from_doc", d=0, t=t(d))
    for d in ("", "=", "====", "A", "AA", "AA==", "AAA=", "AAAA", " ", "BA", "BA==" * 65):
        s("pk_from_json", d=0, t=t(d))
    for l in range(0, 70):
        s("pk_from_bin", d=0, b="02" * l)
        s("pk_from_json", d=0, t=t(base64.b64encode(b"\x02" * l).decode()))
    wide_texts(sc, rng, q)
    return sc


# ---- C22: anything at all ----------------------------------------------------------------------------------
def c22(rng, q):
    sc = Script()

    def rb(l):
        c = rng.randrange(4)
        if c == 0:
            return bytes(rng.getrandbits(8) for _ in range(l))
        if c == 1:
            return bytes([rng.choice([0, 0xff, 0x80, 0x7f, 1, 2, 0x30])] * l)
        if c == 2:
            return bytes(rng.choice([0, 0xff, 0x80, 2, 0x30]) for _ in range(l))
        return h(b256(rng)) and bytes.fromhex((h(b256(rng)) * 8)[:2 * l]) if l <= 256 else bytes(l)

    ll = list(range(0, 140)) + [200, 255, 256, 257, 300]
    for i in range(int(300 * q)):
        s = sc.new("any")
        for _ in range(10):
            op = rng.choice(["sk_parse_slice", "pk_parse_slice", "pk_parse_slice", "sg_der", "sg_der", "sg_lax", "sg_lax",
                             "sg_std_slice", "sg_ovf_slice", "ms_slice", "pk_from_bin", "pk_from_json"])
            l = rng.choice(ll)
            if rng.randrange(2):
                l = {"sk_parse_slice": 32, "ms_slice": 32, "sg_std_slice": 64, "sg_ovf_slice": 64,
                     "pk_parse_slice": rng.choice([33, 64, 65]), "pk_from_bin": rng.choice([33, 64, 65])}.get(op, l)
            b = rb(l)
            if op in ("sg_der", "sg_lax") and rng.randrange(4):
                b = der_cases(rng)
            if op in ("pk_parse_slice", "pk_from_bin") and rng.randrange(2) and len(b):
                b = bytes([rng.choice([2, 3, 4, 6, 7])]) + b[1:]
            if op == "pk_parse_slice":
                s(op, d=0, b=b.hex(), fmt=rng.choice(["none", "full", "comp", "raw"]))
            elif op == "pk_from_json":
                t = "".join(rng.choice("ABab01+/=- \\\"") for _ in range(l))
                s(op, d=0, t=t.encode().hex())
            else:
                s(op, d=0, b=b.hex())
        s("ri_parse", d=0, n=rng.randrange(256))("ri_rpc", d=1, n=rng.randrange(256))
    # decoded material into verification and recovery
    for i in range(int(220 * q)):
        s = sc.new("use")
        for j in range(4):
            s.ri(j, j)
        for _ in range(4):
            pt = some_point(rng)
            s("pk_parse_slice", d=0, b=rng.choice([full(pt), comp(pt), full(pt)[2:]]), fmt="none")
            s("ms_slice", d=0, b=h(b256(rng)))
            c = rng.randrange(3)
            if c == 0:
                s("sg_ovf_slice", d=0, b=h(b256(rng)) + h(b256(rng)))
            elif c == 1:
                s("sg_der", d=0, b=der_cases(rng).hex())
            else:
                s("sg_lax", d=0, b=der_cases(rng).hex())
            s("verify", g=0, m=0, p=0, ctx=s.ctx())
            s("recover", g=0, m=0, i=rng.randrange(4), d=1, ctx=s.ctx())
            s("verify", g=0, m=0, p=1, ctx=s.ctx())
            s("sg_norm", g=0)("sg_ser", g=0)("sg_ser_der", g=0)
        for (Q, z, r, sv) in verify_cases(rng):
            s.pk(0, Q).ms(0, z).sg(0, r, sv)("verify", g=0, m=0, p=0, ctx=s.ctx())
            s("recover", g=0, m=0, i=rng.randrange(4), d=1, ctx=s.ctx())
        for (z, r, sv) in recover_cases(rng):
            s.ms(0, z).sg(0, r, sv)
            for j in range(4):
                s("recover", g=0, m=0, i=j, d=1, ctx=s.ctx())
    der_small(sc, ["sg_der", "sg_lax"], rng, q)
    wide_texts(sc, rng, q)
    return sc


def wide_texts(sc, rng, q):
    """JSON texts with a character of two to four octets at every offset, so that no cut of the text is safe."""
    al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    tops = list(range(0, 132)) + [255, 256, 257, 511, 512, 1023, 1024]
    for wide in ("é", "€", "\U0001d11e"):
        s = sc.new("wide")
        for k in tops:
            n = len(wide.encode())
            at = max(0, k - rng.randrange(1, n))          # the character lies across octet k
            core = base64.b64encode(bytes.fromhex(full(some_point(rng)))).decode()
            head = (core + "".join(rng.choice(al) for _ in range(at)))[:at]
            tail = rng.choice(["", " ", "=", "A", core])
            s("pk_from_json", d=0, t=(head + wide + tail).encode().hex())
            if rng.randrange(3) == 0:
                s("pk_from_json", d=0, t=(head + rng.choice(" =\n\0\x7f\t\\") * rng.randrange(1, 4) + tail).encode().hex())


# ---- C25: histories ---------------------------------------------------------------------------------------------
def c25(rng, q):
    sc = Script()
    for i in range(int(90 * q)):
        s = sc.new("hist")
        K = rng.choice([2, 3, 4])
        # values as built here, to aim at coincidences
        d = {}
        for j in range(K):
            d[j] = rnz(rng)
            s.sk(j, d[j])("pk_derive", k=j, d=j, ctx=s.ctx())
        for step in range(rng.randrange(8, 26)):
            c = rng.randrange(22)
            j, k = rng.randrange(K), rng.randrange(K)
            if c <= 4:
                t = rng.choice([rnz(rng), N - d[j], d[j], 1, N - 1, d[k], (N - d[k]) % N]) % N or 1
                s.sk(8, t)
                order = [("sk_tadd", dict(k=j, t=8)), ("pk_tadd", dict(p=j, t=8, ctx=s.ctx()))]
                rng.shuffle(order)
                for op, a in order:
                    s(op, **a)
                d[j] = (d[j] + t) % N or d[j]
            elif c <= 7:
                t = rng.choice([rnz(rng), d[k], 1, N - 1, 2])
                s.sk(8, t)
                if rng.randrange(5) == 0:
                    s("sk_clear", k=8)
                    t = None
                order = [("sk_tmul", dict(k=j, t=8)), ("pk_tmul", dict(p=j, t=8, ctx=s.ctx()))]
                rng.shuffle(order)
                for op, a in order:
                    s(op, **a)
                d[j] = d[j] * t % N if t else d[j]
            elif c == 8:     # one key as the tweak of another
                s("sk_tadd", k=j, t=k)("pk_combine", ps=[j, k], d=j)
                v = (d[j] + d[k]) % N
                if v == 0:
                    pass
                else:
                    d[j] = v
            elif c == 9:
                s("sk_inv", k=j, d=j)("pk_derive", k=j, d=j, ctx=s.ctx())
                d[j] = inv(d[j], N)
            elif c == 10:
                s("pk_serc", p=j)("pk_ser", p=j)
            elif c == 11:
                s("pk_parse", d=j, b="05" + "11" * 64)("pk_parse_comp", d=j, b="02" + "ff" * 32)
                s("sk_parse", d=j, b="ff" * 32)("sk_parse", d=j, b="00" * 32)
            elif c == 12:
                pt = mul(d[j])
                s("pk_parse_slice", d=j, b=rng.choice([full(pt), comp(pt), full(pt)[2:]]), fmt="none")
            elif c == 13:
                s.ms(0, b256(rng))("sign", k=j, m=0, g=0, i=0, ctx=s.ctx())("verify", g=0, m=0, p=j, ctx=s.ctx())
                s("verify", g=0, m=0, p=k, ctx=s.ctx())("recover", g=0, m=0, i=0, d=9, ctx=s.ctx())("pk_eq", p=9, q=j)
            elif c == 14:
                s("pk_derive", k=j, d=10, ctx=s.ctx())("pk_eq", p=10, q=j)
            elif c == 15:
                s("ecdh", p=j, k=k, dig="sha256", ctx=s.ctx())("ecdh", p=k, k=j, dig="sha256", ctx=s.ctx())
            elif c == 16:
                s("sk_copy", k=j, d=11)("pk_copy", p=j, d=11)("sk_tmul", k=11, t=k)("pk_tmul", p=11, t=k, ctx=s.ctx())
            elif c == 17:
                s("sg_der", d=0, b="3000")("sg_std_slice", d=0, b="ff" * 64)("recover", g=0, m=0, i=0, d=9, ctx=s.ctx())
            elif c == 18:
                s("sg_copy", g=0, d=1)("sg_norm", g=1)("sg_eq", g=0, h=1)
            elif c == 19:
                s("pk_combine", ps=[j, k, j], d=12)("pk_combine", ps=[], d=12)
            elif c == 20:    # self-tweak
                s("sk_tadd", k=j, t=j)
                s.sk(8, d[j])("pk_tadd", p=j, t=8, ctx=s.ctx())
                d[j] = 2 * d[j] % N
            else:
                s("dump")
        s("dump")
        for j in range(K):
            s("pk_derive", k=j, d=13, ctx=s.ctx())("pk_eq", p=13, q=j)
    return sc


# ---- C27: the reader -----------------------------------------------------------------------------
READS = ["remaining", "read", "peek", "peek_slice", "skip", "sequence", "len", "integer", "seq_len_lax", "len_lax",
         "integer_lax"]


def tlv_deep(rng):
    """Octets in which every kind of reading finds something."""
    c = rng.randrange(10)
    if c < 3:
        return der_cases(rng)
    if c < 5:        # lengths, and as much as they announce or about that
        n = rng.choice([0, 1, 2, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300, 70000 if rng.randrange(20) == 0 else 40])
        ln = rng.choice([bytes([n & 127]), b"\x81" + bytes([n & 255]), b"\x82" + (n & 65535).to_bytes(2, "big"),
                         b"\x83" + n.to_bytes(3, "big"), b"\x88" + n.to_bytes(8, "big"), b"\x89" + n.to_bytes(9, "big"),
                         b"\x84" + bytes([rng.choice([0, 1, 255])]) + n.to_bytes(3, "big"),
                         bytes([0x80 + rng.randrange(128)]) + bytes(rng.choice([0, 0, 1, 255]) for _ in range(9))])
        return ln + bytes(rng.choice([0, 1, 2, 48, 255]) for _ in range(max(0, n + rng.choice([0, 0, 0, -1, 1, 3]))))
    if c < 7:
        b = tlv(content(rng), ln=None if rng.randrange(2) else lens(rng, 33)) if rng.randrange(2) else tlv(derint(rsc(rng)))
        return b + (tlv(content(rng)) if rng.randrange(2) else b"")
    if c == 7:       # a long INTEGER in long form
        n = rng.choice([127, 128, 129, 200, 255, 256])
        v = bytes([0] * rng.choice([0, 1, n - 33, n - 32, n - 1]))
        v = (v + bytes(rng.getrandbits(8) for _ in range(n)))[:n]
        return b"\x02" + rng.choice([b"\x81" + bytes([n & 255]), b"\x82" + n.to_bytes(2, "big")]) + v + rng.choice([b"", b"\0", b"\2\1\5"])
    return bytes(rng.choice([0x30, 2, 2, 0, 1, 3, 5, 0x80, 0x81, 0x82, 0xff, 0x7f, 0x88]) for _ in range(rng.randrange(0, 16)))


def c27(rng, q):
    sc = Script()
    for i in range(int(350 * q)):
        s = sc.new("reader")
        for _ in range(10):
            b = tlv_deep(rng)
            calls = []
            c = rng.randrange(4)
            if c == 0:
                calls = ["remaining", rng.choice(READS[5:]), "remaining", "read"]
            elif c == 1:
                calls = ["sequence", rng.choice(["len", "seq_len_lax", "len_lax"]), "remaining", rng.choice(["integer", "integer_lax"]),
                         "remaining", rng.choice(["integer", "integer_lax"]), "remaining"]
            else:
                calls = [rng.choice(READS) for _ in range(rng.randrange(1, 9))]
            near = lambda: rng.choice([0, 0, 1, 1, 2, 3, len(b), len(b) + 1, max(len(b) - 1, 0), max(len(b) - 2, 0), rng.randrange(40),
                                       rng.choice([-1, -1, -2, -3, -len(b) - 1, -rng.randrange(1, 40), 0])])
            s("reader", b=b.hex(), calls=[{"op": o, "n": near()} for o in calls])
    s = sc.new("array")
    for k in range(73):
        s("sg_arr", n=k)
    return sc


GENS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08,
        "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16,
        "C22": c22, "C25": c25, "C27": c27}


# ---- C23: cleared keys ------------------------------------------------------------------
def c23(rng, q):
    """Keys with a history, cleared, and what is then done with them."""
    sc = Script()
    for i in range(int(60 * q)):
        s = sc.new("cleared")
        v = rnz(rng)
        s.sk(0, v)("sk_default", d=1)
        s.sk(2, rnz(rng))("sk_copy", k=0, d=3)
        s("pk_derive", k=2, d=0, ctx=s.ctx())("pk_derive", k=0, d=1, ctx=s.ctx())
        s.ms(0, rsc(rng))
        for _ in range(rng.randrange(4)):      # a history
            c = rng.randrange(6)
            if c == 0:
                s("sk_tadd", k=0, t=2)
            elif c == 1:
                s("sk_tmul", k=0, t=2)
            elif c == 2:
                s("sk_inv", k=0, d=0)
            elif c == 3:
                s("sign", k=0, m=0, g=0, i=0, ctx=s.ctx())
            elif c == 4:
                s("ecdh", p=0, k=0, dig="sha256", ctx=s.ctx())
            else:
                s("sk_tadd", k=0, t=0)
        s("sk_is_zero", k=0)("sk_clear", k=0)
        after = [("sk_is_zero", dict(k=0)), ("sk_ser", dict(k=0)), ("sk_hex", dict(k=0)), ("sk_scalar", dict(k=0)),
                 ("sk_eq", dict(k=0, t=1)), ("sk_eq", dict(k=3, t=0)), ("sk_eq", dict(k=0, t=2)),
                 ("sk_eq", dict(k=0, t=0)),
                 ("ecdh", dict(p=0, k=0, dig="sha256", ctx=s.ctx())), ("ecdh", dict(p=1, k=0, dig="id33", ctx=s.ctx())),
                 ("sk_tmul", dict(k=2, t=0)), ("pk_tmul", dict(p=0, t=0, ctx=s.ctx())),
                 ("sk_is_zero", dict(k=3)), ("sk_clear", dict(k=0)), ("sk_copy", dict(k=0, d=4))]
        rng.shuffle(after)
        for op, a in after[:rng.randrange(8, len(after) + 1)]:
            s(op, **a)
        # another key cleared; the slot filled again
        if rng.randrange(2):
            s("sk_clear", k=3)("sk_eq", k=0, t=3)("sk_is_zero", k=3)
        s.sk(0, rnz(rng))("sk_is_zero", k=0)("ecdh", p=0, k=0, dig="sha256", ctx=s.ctx())("dump")
    return sc


GENS["C23"] = c23


# ---- calls next to related calls ------------------------------------------------------------
def next_to(i, *more):
    """Property i also gets these: (function of module rel, number of sessions)."""
    f = GENS[i]

    def g(rng, q):
        sc = f(rng, q)
        for fn, n in more:
            fn(sc, rng, max(1, int(n * q)))
        return sc
    GENS[i] = g


next_to("C01", (rel.sign, 10), (rel.mixed, 15))
next_to("C02", (rel.sign, 90), (rel.mixed, 10))
next_to("C03", (rel.verify, 90), (rel.mixed, 10))
next_to("C04", (lambda *a: rel.verify(*a, recover=True), 90), (rel.mixed, 10))
next_to("C05", (rel.derive, 80))
next_to("C06", (rel.decode, 160))
next_to("C08", (rel.invert, 30))
next_to("C09", (rel.tweak, 120), (rel.mixed, 10))
next_to("C10", (rel.combine, 80))
next_to("C11", (rel.agree, 110), (rel.mixed, 10))
next_to("C25", (rel.mixed, 60), (rel.sign, 15), (rel.verify, 15), (rel.derive, 15), (rel.decode, 15), (rel.tweak, 15),
        (rel.combine, 15), (rel.agree, 15))
for _i, _op in (("C02", "sign"), ("C03", "verify"), ("C04", "recover"), ("C05", "derive"), ("C06", "decode"), ("C08", "invert"),
                ("C09", "tweak"), ("C10", "combine"), ("C11", "agree")):
    next_to(_i, (rel.every(_op), 1))


# ---- C24: everything, sorted by what a build must have -----------------------------------
SIGNING = {"sign", "sign_full"}
SERDE = {"pk_json", "pk_bin", "pk_from_json", "pk_from_doc", "pk_from_bin"}


def c24(rng, q):
    """Returns the scripts by the group of operations they need."""
    out = {"base": Script(), "sign": Script(), "serde": Script()}
    for g in sorted(GENS):
        if g == "C24":
            continue
        ss = GENS[g](rng, 0.6).sessions
        rng.shuffle(ss)
        for s in ss[:int(250 * q)]:
            ops = {e["op"] for e in s.ev}
            if ops & SIGNING and ops & SERDE:
                s.ev = [e for e in s.ev if e["op"] not in SERDE]
            c = "sign" if ops & SIGNING else "serde" if ops & SERDE else "base"
            s.id = f"{g}-{s.id}"
            out[c].sessions.append(s)
    # products in which every carry of the arithmetic occurs
    pairs = [(a, b) for a, b in low.carries() if a and b]
    rng.shuffle(pairs)
    for i in range(0, len(pairs), 30):
        s = out["base"].new("products")
        for a, b in pairs[i:i + 30]:
            s.sk(0, a).sk(1, b)
            s("sk_tmul", k=0, t=1)("sk_inv", k=1, d=2)("sk_tmul", k=0, t=2)("sk_ser", k=0)
    return out
