"""Inputs worth trying. Plain integer arithmetic is used here only to build
inputs that reach particular situations; what the library must answer is
decided by the TLA+ specification alone."""
import json
import random

P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
HALF = (N - 1) // 2
PMN = P - N
BETA = next(b for b in (pow(g, (P - 1) // 3, P) for g in range(2, 20)) if b != 1)
BLIND = sum(w << (32 * i) for i, w in enumerate(
    [2217680822, 850875797, 1046150361, 1330484644, 4015777837, 2466086288, 2052467175, 2084507480]))


def inv(a, m):
    return pow(a, -1, m)


def add(p, q):
    if p is None:
        return q
    if q is None:
        return p
    if p[0] == q[0]:
        if (p[1] + q[1]) % P == 0:
            return None
        l = 3 * p[0] * p[0] * inv(2 * p[1], P) % P
    else:
        l = (q[1] - p[1]) * inv((q[0] - p[0]) % P, P) % P
    x = (l * l - p[0] - q[0]) % P
    return (x, (l * (p[0] - x) - p[1]) % P)


def _dbl(p):
    if p is None:
        return None
    x, y, z = p
    yy = y * y % P
    s4 = 4 * x * yy % P
    e = 3 * x * x % P
    x3 = (e * e - 2 * s4) % P
    return (x3, (e * (s4 - x3) - 8 * yy * yy) % P, 2 * y * z % P)


def _madd(p, q):
    if p is None:
        return (q[0], q[1], 1)
    x, y, z = p
    zz = z * z % P
    hh = (q[0] * zz - x) % P
    r = (q[1] * zz * z - y) % P
    if hh == 0:
        return _dbl(p) if r == 0 else None
    h2 = hh * hh % P
    h3 = h2 * hh % P
    v = x * h2 % P
    x3 = (r * r - h3 - 2 * v) % P
    return (x3, (r * (v - x3) - y * h3) % P, z * hh % P)


def mul(k, p=G):
    k %= N
    if p is None or k == 0:
        return None
    r = None
    for i in range(k.bit_length() - 1, -1, -1):
        r = _dbl(r)
        if k >> i & 1:
            r = _madd(r, p)
    if r is None:
        return None
    zi = inv(r[2], P)
    return (r[0] * zi * zi % P, r[1] * zi * zi * zi % P)


def neg(p):
    return None if p is None else (p[0], (-p[1]) % P)


def beta(p):
    return (p[0] * BETA % P, p[1])


def lift(x, odd=0):
    """A point with this x coordinate, or None."""
    c = (pow(x, 3, P) + 7) % P
    y = pow(c, (P + 1) // 4, P)
    if y * y % P != c:
        return None
    return (x % P, y if y % 2 == odd else P - y)


def cuberoot(a):
    """P = 7 mod 9."""
    a %= P
    r = pow(a, (P + 2) // 9, P)
    return r if pow(r, 3, P) == a else None


def h(v, l=32):
    return v.to_bytes(l, "big").hex()


def full(p):
    return "04" + h(p[0]) + h(p[1])


def comp(p):
    return ("03" if p[1] & 1 else "02") + h(p[0])


def w8(ws):
    """Little-endian 32-bit words."""
    return sum((w & 0xFFFFFFFF) << (32 * i) for i, w in enumerate(ws))


def uniq(xs):
    return list(dict.fromkeys(xs))


def words_of(v):
    return [(v >> (32 * i)) & 0xFFFFFFFF for i in range(8)]


# ---- scalars --------------------------------------------------------------------
CORE = uniq([0, 1, 2, 3, 4, 5, 6, 7, 8, N - 1, N - 2, N - 3, N - 4, HALF, HALF + 1, HALF - 1, HALF + 2,
             2**255, 2**255 - 1, 2**128, 2**128 - 1, 2**256 - N, 2**256 - N - 1, 2**256 - N + 1,
             2**252 - 1, 2**240, 15, 16, 17, 31, 32, 33])


def scalars():
    r = list(CORE)
    for k in range(0, 256, 1):
        r += [2**k, 2**k - 1, N - 2**k]
    for i in range(8):
        r.append(w8([0xFFFFFFFF if j == i else 0 for j in range(8)]))
        r.append(N - 1 - w8([0xFFFFFFFF if j == i else 0 for j in range(8)]))
    wn, wh = words_of(N), words_of(HALF)
    for i in range(8):
        for base in (wn, wh):
            for d in (-1, 1):
                ws = list(base)
                ws[i] += d
                r.append(w8(ws))
    r += [int("a" * 64, 16), int("5" * 64, 16), int("7" * 64, 16), int("8" * 64, 16), int("1" * 64, 16),
          int("f0" * 32, 16), int("0f" * 32, 16), int("f000" * 16, 16), int("7fff" * 16, 16), int("8000" * 16, 16)]
    return uniq([x % N for x in r if 0 <= x < 2**256])


PATW = [0, 0, 1, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFE, 0x80000000, 0x7FFFFFFF]


def pat(rng, bound=N):
    """A number below bound whose words are extreme, random or taken from n and n/2."""
    while True:
        ws = []
        for i in range(8):
            c = rng.randrange(10)
            if c < 6:
                ws.append(rng.choice(PATW))
            elif c == 6:
                ws.append(words_of(N)[i])
            elif c == 7:
                ws.append(words_of(HALF)[i])
            else:
                ws.append(rng.getrandbits(32))
        v = w8(ws)
        if v < bound:
            return v


def runs(rng):
    """Long runs of ones and zeros."""
    v, b, pos = 0, rng.getrandbits(1), 0
    while pos < 256:
        l = min(256 - pos, rng.choice([1, 2, 3, 4, 5, 8, 13, 16, 17, 32, 40, 64]))
        if b:
            v |= ((1 << l) - 1) << pos
        pos += l
        b ^= 1
    return v % N


SC = scalars()


def rsc(rng):
    c = rng.randrange(8)
    if c < 2:
        return rng.choice(SC)
    if c < 4:
        return pat(rng)
    if c == 4:
        return runs(rng)
    if c == 5:
        return rng.getrandbits(rng.choice([1, 4, 8, 16, 32, 64, 127, 128, 129, 192])) % N
    return rng.randrange(N)


def rnz(rng):
    while True:
        v = rsc(rng)
        if v:
            return v


def b256(rng):
    """Any 32-byte value, often at or above n or p."""
    c = rng.randrange(10)
    if c == 0:
        return rng.choice([N, N + 1, N - 1, P, P + 1, P - 1, 2**256 - 1, 0, 1, 2 * N % 2**256, N + HALF & (2**256 - 1)])
    if c == 1:
        return rng.randrange(N, 2**256)
    if c == 2:
        return rng.randrange(P, 2**256)
    if c == 3:
        return pat(rng, 2**256)
    return rng.getrandbits(256) if c < 7 else rsc(rng)


class Script:
    def __init__(self):
        self.sessions = []

    def new(self, tag):
        s = Session(f"{tag}-{len(self.sessions)}")
        self.sessions.append(s)
        return s

    def write(self, path):
        with open(path, "w") as f:
            for s in self.sessions:
                if s.ev:
                    f.write(json.dumps({"id": s.id, "ev": s.ev}) + "\n")

    def events(self):
        return sum(len(s.ev) for s in self.sessions)


class Session:
    def __init__(self, id):
        self.id = id
        self.ev = []
        self.flip = 0

    def __call__(self, op, **a):
        self.ev.append({"op": op, "a": a})
        return self

    def ctx(self):
        self.flip += 1
        return "static" if self.flip % 2 else "boxed"

    # shorthands; slots first
    def sk(self, d, v):
        return self("sk_parse", d=d, b=h(v))

    def pk(self, d, p):
        return self("pk_parse", d=d, b=full(p))

    def ms(self, d, v):
        return self("ms_parse", d=d, b=h(v))

    def sg(self, d, r, s):
        return self("sg_raw", d=d, r=h(r), s=h(s))

    def ri(self, d, n):
        return self("ri_parse", d=d, n=n)
