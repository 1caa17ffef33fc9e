"""Scripts for the arithmetic layer (harness bin `low`, module Low)."""
import os

import rel
from base import *

MASK = (1 << 26) - 1
PV = [P, P - 1, P + 1, 2**256 - 1, 2**256 - 2, 2**256 - 977, 0, 1, 2, P - 2, 2**255, 2**32 + 977, 2**32 + 976]


# ---- scalars (C17) ------------------------------------------------------------------
def mul_pairs(rng, k):
    """Pairs whose product, or its reductions, have extreme words."""
    out = []
    nc = 2**256 - N
    for _ in range(k):
        c = rng.randrange(9)
        a = rnz(rng)
        if c == 0:      # product congruent to something small
            t = rng.choice([0, 1, 2, 3, 2**32, 2**64, 2**96, 2**128, 2**128 - 1, 2**255, HALF, HALF + 1, N - 1, N - 2]) % N
            out.append((a, t * inv(a, N) % N))
        elif c == 1:    # product as an integer just around a multiple of n
            m = rng.choice([1, 2, 3, N - 1, N // 2, nc, rng.randrange(1, N)])
            b = (m * N + rng.choice([-1, 0, 1])) // a
            out.append((a, b % N))
        elif c == 2:
            out.append((pat(rng), pat(rng)))
        elif c == 3:    # high half all ones
            v = ((1 << 256) - 1 - rng.getrandbits(rng.choice([1, 32, 64, 96, 128]))) << 256 | pat(rng, 2**256)
            b = v // a
            out.append((a, b % N if b >= N else b))
        elif c == 4:
            out.append((rsc(rng), rsc(rng)))
        elif c == 5:    # words 0 or all ones only
            f = lambda: w8([rng.choice([0, 0xFFFFFFFF]) for _ in range(8)]) % N
            out.append((f(), f()))
        elif c == 6:    # one word against one word
            i, j = rng.randrange(8), rng.randrange(8)
            out.append((w8([0xFFFFFFFF if t == i else 0 for t in range(8)]) % N,
                        w8([0xFFFFFFFF if t == j else 0 for t in range(8)]) % N))
        elif c == 7:
            out.append((N - 1 - rng.getrandbits(rng.choice([2, 31, 33, 64])), N - 1 - rng.getrandbits(rng.choice([2, 31, 33, 64]))))
        else:
            out.append((a, a if rng.random() < .5 else N - a))
    return out


def add_pairs(rng, k):
    """Sums around n, 2^256 and carries between words."""
    out = []
    for _ in range(k):
        a = rsc(rng)
        c = rng.randrange(5)
        if c == 0:
            s = rng.choice([N - 1, N, N + 1, 2**256 - 1, 2**256, 2**256 + 1, 2 * N - 2, 2 * N - 3])
            b = s - a
        elif c == 1:
            s = rng.choice([N, 2**256, HALF, 0]) + rng.choice([-1, 1]) * 2**(32 * rng.randrange(8)) * rng.randrange(3)
            b = s - a
        elif c == 2:    # words of the sum equal to those of n, except one
            ws = words_of(N)
            ws[rng.randrange(8)] += rng.choice([-1, 0, 1])
            b = w8(ws) - a
        elif c == 3:
            b = pat(rng)
        else:
            b = rsc(rng)
        if 0 <= b < N:
            out.append((a, b))
    return out


def b32_cases(rng, k):
    out = []
    for _ in range(k):
        c = rng.randrange(4)
        if c == 0:
            ws = words_of(N)
            for _ in range(rng.randrange(1, 3)):
                ws[rng.randrange(8)] += rng.choice([-1, 1, 0])
            v = w8(ws) % 2**256
        elif c == 1:
            v = (N + rng.getrandbits(rng.choice([1, 8, 32, 64, 100, 128]))) % 2**256
        elif c == 2:
            v = pat(rng, 2**256)
        else:
            v = b256(rng)
        out.append(v)
    return out


def near_half():
    wh = words_of(HALF)
    out = []
    for i in range(8):
        for d in (-1, 1):
            for fill in (0, 0xFFFFFFFF, None):
                ws = list(wh)
                ws[i] += d
                if fill is not None:
                    for j in range(i):
                        ws[j] = fill
                out.append(w8(ws) % N)
    return out


def carries():
    """Pairs (or single values, to be squared) that between them make every carry of
    word-wise multiplication and reduction happen; found by tools/carry."""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "carries.txt")) as f:
        for l in f:
            ws = [int(x, 16) for x in l.split()]
            yield ws[0], ws[-1]


def c17(rng, q):
    sc = Script()

    def spread(name, calls, per=40):
        s = None
        for k, (op, a) in enumerate(calls):
            if k % per == 0:
                s = sc.new(name)
            s(op, **a)
    bits1 = [v for k in range(256) for v in (2**k, 2**k + 1, N - 2**k, N - 2**k - 1) if v < N]
    one = bits1 + [x for ab in carries() for x in set(ab)] + list(SC) + near_half() + [pat(rng) for _ in range(1500 * q)] + [runs(rng) for _ in range(300 * q)] + \
        [rsc(rng) for _ in range(700 * q)]
    spread("sc1", [("sc1", {"x": h(x)}) for x in one])
    two = list(carries()) + [(a, b) for a in CORE for b in CORE] + mul_pairs(rng, 6000 * q) + add_pairs(rng, 5000 * q)
    for i in range(8):
        for j in range(8):
            f = lambda t, v: w8([v if u == t else 0 for u in range(8)])
            two.append((f(i, 0xFFFFFFFF) % N, f(j, 0xFFFFFFFF) % N))
            two.append((f(i, 1), f(j, 1)))
            two.append(((2**256 - 1 - f(i, 0xFFFFFFFF)) % N, (2**256 - 1 - f(j, 1)) % N))
    spread("sc2", [("sc2", {"x": h(a), "y": h(b)}) for a, b in two])
    spread("b32", [("sc_b32", {"b": h(v)}) for v in
                   [N + d for d in range(-3, 4)] + [2**256 - 1, 0, 1] + b32_cases(rng, 2500 * q)])
    bits = []
    for off in range(256):
        for cnt in {1, 4, 5, 16, 31, rng.randrange(1, 32), rng.randrange(1, 32)}:
            if off + cnt <= 256:
                bits.append(("sc_bits", {"x": h(rsc(rng)), "off": off, "cnt": cnt}))
    bits += [("sc_word", {"x": h(x), "i": i}) for x in [0, 1, N - 1] + [rsc(rng) for _ in range(12)] for i in range(8)]
    spread("bits", bits)
    spread("shr", [("sc_shr", {"x": h(rsc(rng)), "n": k}) for k in range(1, 16) for _ in range(25 * q)])
    adds = []
    for bit in range(256):
        for _ in range(3 * q):
            flag = rng.random() < .7
            x = rng.choice([rsc(rng), pat(rng), rng.getrandbits(bit) if bit else 0,
                            (2**256 - 2**bit) % N, w8([0xFFFFFFFF] * 8) - 2**255 if bit < 255 else 0])
            if not flag or x + 2**bit < N:
                adds.append(("sc_addbit", {"x": h(x % N), "bit": bit, "flag": flag}))
    spread("addbit", adds)
    spread("int", [("sc_int", {"v": h(v, 4)}) for v in
                   [0, 1, 2, 2**31, 2**31 - 1, 2**32 - 1] + [rng.getrandbits(32) for _ in range(60)]])
    return sc


# ---- field (C18) -----------------------------------------------------------------------
def limbs(v):
    return [(v >> (26 * i)) & MASK for i in range(9)] + [v >> 234]


LMAX, TMAX = 2 * MASK, 2 * ((1 << 22) - 1)
PLIMB = limbs(P)


def raw_limbs(rng):
    """Ten limbs, unreduced: extreme limbs, values around multiples of p, carry chains."""
    c = rng.randrange(10)
    if c < 3:
        l = [rng.choice([0, 1, MASK, MASK - 1, MASK + 1, LMAX, LMAX - 1, rng.getrandbits(26), 2**26 - 0x40, 0x3d1])
             for _ in range(9)]
        return l + [rng.choice([0, 1, (1 << 22) - 1, 1 << 22, TMAX, rng.getrandbits(22)])]
    if c < 6:       # a small value plus p, or 2^256 - 1 - small, spread over the limbs
        v = rng.choice([P, P - 1, P + 1, 2**256 - 1, P + rng.getrandbits(33), P - rng.getrandbits(33), 2**256 - rng.getrandbits(10) - 1,
                        rng.getrandbits(33), 2 * P, 2 * P - 1, 2 * P + 1, 2 * P + rng.getrandbits(20), 0])
        return shift_limbs(rng, v)
    if c == 6:
        l = [x + y for x, y in zip(PLIMB, limbs(rng.choice([0, 1, 2, P - 1, rng.getrandbits(256) % P])))]
        return l
    if c == 7:      # all ones down to some limb
        k = rng.randrange(10)
        return [rng.getrandbits(26) if i < k else MASK for i in range(9)] + [(1 << 22) - 1]
    return limbs(pat(rng, 2**256))


def shift_limbs(rng, v):
    """A representation of v (< 2^257) with some limbs above 26 bits."""
    l = [(v >> (26 * i)) & MASK for i in range(9)] + [v >> 234]
    if l[9] > TMAX:
        l[9] = TMAX
    for i in range(8, -1, -1):
        if l[i + 1] > 0 and l[i] + 2**26 <= LMAX and rng.random() < .4:
            l[i + 1] -= 1
            l[i] += 2**26
    return l


def spread(rng, v, m):
    """Limbs of magnitude m that add up to v (any size that fits): units moved down at random."""
    l = [(v >> (26 * i)) & MASK for i in range(9)] + [v >> 234]
    how = rng.randrange(4)
    only = rng.randrange(1, 10)
    for i in range(9, 0, -1):
        most = min(l[i], (LMAX * m - l[i - 1]) >> 26)
        b = [most, rng.randrange(most + 1), rng.choice([0, 0, 1, most]), most if i == only else 0][how] if most > 0 else 0
        b = min(b, most) if most > 0 else 0
        l[i] -= b
        l[i - 1] += b << 26
    return l if l[9] <= TMAX * m else None


def heavy(g, d, tmp, v, m):
    """Puts a representation of v with magnitude m into d."""
    l = spread(g.rng, v, m)
    if l is None:
        l = spread(g.rng, v % P, m)
    q, r = [x // m for x in l], [x % m for x in l]
    if m == 1 or any(r) and m == 2:
        q, r = limbs(v % P), [0] * 10
    g.put("fe_raw", d, 1, False, l=q)
    k = m - 1 if any(r) else m
    if any(r):          # q * (m - 1) + (q + r)
        r = [x + y for x, y in zip(q, r)]
        if any(x > LMAX for x in r[:9]) or r[9] > TMAX:
            q, r, k = limbs(v % P), [0] * 10, m
            g.put("fe_raw", d, 1, False, l=q)
            return
        g.put("fe_raw", tmp, 1, False, l=r)
    g.put("fe_muli", d, k, False, x=d, n=k)
    if any(r):
        g.put("fe_add", d, m, False, x=d, y=tmp)


class FieldGen:
    """Keeps the magnitudes so that every call is permitted."""

    def __init__(self, s, rng):
        self.s, self.rng, self.m = s, rng, {}

    def put(self, op, d, mag, nrm, **a):
        self.s(op, d=d, **a)
        self.m[d] = (mag, nrm)

    def load(self, d):
        r = self.rng
        c = r.randrange(12)
        if c < 7:
            self.put("fe_raw", d, 1, False, l=raw_limbs(r))
        elif c == 7:
            self.put("fe_new", d, 1, True, b=h(r.choice(PV + [pat(r, P)]) % P))
        elif c == 8:
            self.put("fe_b32", d, 1, True, b=h(r.choice([P - 1, P - 2, 0, 1, pat(r, P), r.randrange(P)])))
        elif c == 9:
            self.put("fe_int", d, 1, True, n=r.choice([0, 1, 7, MASK, r.getrandbits(26)]))
        elif c == 10:
            self.put("fe_clear", d, 0, True)
        else:
            v = r.choice([1, 2, 3, 7, BETA, P - 1, r.randrange(P)])
            self.put("fe_new", d, 1, True, b=h(v * v % P))

    def step(self):
        r = self.rng
        regs = list(self.m)
        d = r.randrange(8)
        if len(regs) < 4 or r.random() < .12:
            return self.load(d)
        x, y = r.choice(regs), r.choice(regs)
        (mx, nx), (my, ny) = self.m[x], self.m[y]
        op = r.choice(["add", "add", "add", "neg", "neg", "muli", "muli", "mul", "mul", "sqr", "norm", "norm", "cmov",
                       "store", "test", "eq", "eq", "eqvar", "cmp", "sub", "sub", "inv", "sqrt"])
        if op == "add" and mx + my <= 31:
            self.put("fe_add", d, mx + my, False, x=x, y=y)
        elif op == "neg" and mx <= 30:
            m = r.choice([mx, mx, min(mx + 1, 30), r.randrange(mx, 31)])
            self.put("fe_neg", d, m + 1, False, x=x, m=m)
        elif op == "sub" and mx + my + 1 <= 31:      # x - y, and x - x
            self.put("fe_neg", d, my + 1, False, x=y, m=my)
            if d != x:
                self.put("fe_add", d, mx + my + 1, False, x=x, y=d)
        elif op == "muli":
            k = r.randrange(0, 31 // max(1, mx) + 1)
            self.put("fe_muli", d, mx * k, False, x=x, n=k)
        elif op == "mul" and mx <= 8 and my <= 8:
            self.put("fe_mul", d, 1, False, x=x, y=y)
        elif op == "sqr" and mx <= 8:
            self.put("fe_sqr", d, 1, False, x=x)
        elif op == "inv" and mx <= 8 and r.random() < .5:
            self.put("fe_inv", d, 1, False, x=x)
        elif op == "sqrt" and mx <= 8:
            self.put("fe_sqrt", d, 1, False, x=x)
            self.s("fe_quad", x=x)
        elif op == "norm":
            kind = r.choice(["full", "var", "weak"])
            self.put("fe_norm", d, 1, kind != "weak" or nx, x=x, kind=kind)
        elif op == "cmov":
            f = r.random() < .5
            self.put("fe_cmov", d, *(self.m[y] if f else self.m[x]), x=x, y=y, flag=f)
        elif op == "store" and nx:
            self.put("fe_store", d, 1, True, x=x)
        elif op == "test" and nx:
            self.s("fe_zero", x=x)("fe_odd", x=x)
        elif op == "eq" and mx + my + 1 <= 31:
            self.s("fe_eq", x=x, y=y)
        elif op == "eqvar" and mx <= 1 and my <= 29:
            self.s("fe_eqvar", x=x, y=y)
        elif op == "cmp" and nx and ny:
            self.s("fe_cmp", x=x, y=y)


def c18(rng, q):
    sc = Script()
    for _ in range(260 * q):
        s = sc.new("fe")
        g = FieldGen(s, rng)
        while len(s.ev) < 55:
            g.step()
    # one representation after another through every unary call
    s = sc.new("raw")
    for k in range(900 * q):
        if k % 6 == 0:
            s = sc.new("raw")
        l = raw_limbs(rng)
        s("fe_raw", d=0, l=l)
        for kind in ("full", "var", "weak"):
            s("fe_norm", d=1, x=0, kind=kind)
        s("fe_muli", d=2, x=0, n=rng.randrange(1, 9))("fe_sqr", d=3, x=2)("fe_raw", d=4, l=raw_limbs(rng))
        s("fe_muli", d=5, x=4, n=rng.randrange(1, 9))("fe_mul", d=6, x=2, y=5)
        s("fe_neg", d=7, x=2, m=8)("fe_add", d=7, x=7, y=2)("fe_neg", d=7, x=6, m=1)("fe_eqvar", x=0, y=4)
        s("fe_eq", x=0, y=2)
        # the same value again, in another representation
        v = sum(x << (26 * i) for i, x in enumerate(l)) % P
        s("fe_new", d=8, b=h(v))("fe_eq", x=8, y=0)("fe_eq", x=0, y=8)("fe_eqvar", x=8, y=0)
        s("fe_raw", d=9, l=[a + b for a, b in zip(limbs(v), PLIMB)])("fe_eqvar", x=0, y=9)("fe_norm", d=9, x=9, kind="var")
        s("fe_cmp", x=8, y=9)
        # one more and one less
        for dv in (1, P - 1, 1 << 26, 1 << 234):
            s("fe_new", d=10, b=h((v + dv) % P))("fe_eqvar", x=10, y=0)
        s("fe_cmp", x=10, y=8)("fe_cmp", x=8, y=10)
    # zero in disguise, and almost
    s = sc.new("zero")
    for k in range(200 * q):
        if k % 8 == 0:
            s = sc.new("zero")
        t = rng.choice([0, 0, 1, P - 1, 2**26, 2**255, 977, 2**32])
        m = rng.randrange(1, 15)
        v = pat(rng, P)
        s("fe_raw", d=0, l=limbs(v) if rng.random() < .5 else [a + b for a, b in zip(limbs(v), PLIMB)])
        s("fe_muli", d=1, x=0, n=m)("fe_neg", d=2, x=1, m=m + rng.randrange(0, 2))
        if 2 * m + 2 <= 30:
            s("fe_add", d=3, x=1, y=2)("fe_new", d=4, b=h(t))("fe_add", d=5, x=3, y=4)
            for kind in ("full", "var", "weak"):
                s("fe_norm", d=6, x=5, kind=kind)
    # multiples of p, and their neighbours, with every kind of carry between the limbs
    for k in range(500 * q):
        if k % 6 == 0:
            g = FieldGen(sc.new("carry"), rng)
        m = rng.choice([1, 2, 3, 5, 8, 8, 16, 31, rng.randrange(1, 32)])
        v = rng.randrange(0, 2 * m + 1) * P
        e = rng.choice([0, 0, 0, 1, 977, 1 << (26 * rng.randrange(10)), 1 << rng.randrange(256), rng.randrange(P)])
        v += rng.choice([e, -e])
        if v < 0 or v >= 2 * m * 2**256:
            v = 0
        heavy(g, 0, 7, v, m)
        g.s("fe_look", x=0)
        for kind in ("full", "var", "weak"):
            g.s("fe_norm", d=1, x=0, kind=kind)
        g.s("fe_new", d=2, b=h((v + rng.choice([0, 0, 1, P - 1])) % P))("fe_look", x=2)
        if g.m[0][0] <= 29:
            g.s("fe_eqvar", x=2, y=0)
        if g.m[0][0] <= 8:
            heavy(g, 3, 7, pat(rng, 2**256), rng.choice([1, 4, 8]))
            g.s("fe_sqr", d=4, x=0)("fe_mul", d=5, x=0, y=3)("fe_look", x=5)
    s = sc.new("b32")
    for k, v in enumerate([P + d for d in range(-70, 70)] + PV + [rng.randrange(P, 2**256) for _ in range(40)] +
                          [pat(rng, 2**256) for _ in range(400 * q)] +
                          [P - 2**k for k in range(256)] + [(P + 2**k) % 2**256 for k in range(256)]):
        if k % 40 == 0:
            s = sc.new("b32")
        s("fe_b32", d=0, b=h(v))
        if v < P and k % 3 == 0:
            s("fe_store", d=1, x=0)
    s = sc.new("root")
    for k in range(260 * q):
        if k % 13 == 0:
            s = sc.new("root")
        v = rng.choice([0, 1, 2, 3, 4, 7, P - 1, P - 2, P - 7, rng.randrange(P), pat(rng, P), rng.randrange(P)**2 % P,
                        P - rng.randrange(P)**2 % P])
        s("fe_new", d=0, b=h(v % P))("fe_sqrt", d=1, x=0)("fe_quad", x=0)("fe_inv", d=2, x=0)("fe_mul", d=3, x=0, y=2)
    return sc


# ---- group (C19) ------------------------------------------------------------------------
def curve_points(rng):
    r = [G, mul(2), mul(3), neg(G), beta(G), neg(beta(G)), beta(beta(G)), mul(HALF), mul(HALF + 1), mul(N - 1)]
    r += [mul(rsc(rng)) for _ in range(4)]
    for x in rng.sample([1, 2, 3, 4, 6, 8, 12, P - 3, P - 1, 2**32 + 977, N, N - 1, N + 1], 6):
        p = lift(x, rng.getrandbits(1))
        if p:
            r.append(p)
    for y in rng.sample(range(1, 60), 12):
        x = cuberoot(y * y - 7)
        if x:
            r.append((x, y if rng.random() < .5 else P - y))
    return [p for p in r if p]


class GroupGen:
    """Tracks the points, to aim at coincidences and to keep calls permitted."""

    def __init__(self, s, rng, pts):
        self.s, self.rng, self.pts = s, rng, pts
        self.a, self.j = {}, {}

    def aff(self, d, p=0):
        r = self.rng
        if p == 0:
            p = r.choice(self.pts)
            if r.random() < .1:
                p = None
        if p is None:
            self.s("ge_inf", d=d)
        else:
            rep = r.choice([0, 0, 1, 2, 3, 4])
            x, y = p
            if rep and x + P < 2**256:
                x += P
            self.s("ge_set", d=d, x=h(x), y=h(y), rep=rep)
        self.a[d] = p
        return p

    def relative(self, p):
        """A point in an interesting relation to p."""
        r = self.rng
        if p is None:
            return r.choice(self.pts + [None])
        return r.choice([p, p, neg(p), neg(p), beta(p), neg(beta(p)), beta(beta(p)), neg(beta(beta(p))), None,
                         add(p, p), neg(add(p, p)), r.choice(self.pts)])

    def jac(self, d, p):
        """p in Jacobian coordinates with some z."""
        r = self.rng
        k = 11
        self.aff(k, p)
        self.s("gej_from", d=d, x=k)
        self.j[d] = p
        if r.random() < .7:
            self.s("gej_rescale", d=d, x=d, s=h(r.choice([1, 2, P - 1, BETA, P - 2, r.randrange(1, P), pat(r, P) or 1])))

    def step(self):
        r, s = self.rng, self.s
        d = r.randrange(7)
        if len(self.j) < 2 or r.random() < .15:
            return self.jac(d, r.choice(self.pts + [None]))
        x = r.choice(list(self.j))
        p = self.j[x]
        op = r.choice(["dbl", "dbl", "neg", "add", "add", "add", "addge", "addge", "addge", "addgev", "addgev", "addz", "addz",
                       "aff", "eqx", "quad", "tbl", "scale", "inf", "aneg", "sto", "aeq"])
        if op == "dbl":
            o = r.choice(["gej_dbl", "gej_dblnz"]) if p else "gej_dbl"
            s(o, d=d, x=x, rzr=r.random() < .6)
            self.j[d] = add(p, p)
        elif op == "neg":
            s("gej_neg", d=d, x=x)
            self.j[d] = neg(p)
        elif op == "scale":
            s("gej_rescale", d=d, x=x, s=h(r.randrange(1, P)))
            self.j[d] = p
        elif op == "inf":
            if r.random() < .4:
                s("gej_inf", d=d, alt=r.random() < .5)
                self.j[d] = None
        elif op == "add":
            y = r.choice(list(self.j))
            if r.random() < .6:
                y = 7
                self.jac(y, self.relative(p))
                p = self.j[x]
            s("gej_add", d=d, x=x, y=y, rzr=p is not None and r.random() < .6)
            self.j[d] = add(p, self.j[y])
        elif op in ("addge", "addgev"):
            if r.random() < .7 or not self.a:
                y = 8
                self.aff(y, self.relative(p))
            else:
                y = r.choice(list(self.a))
            b = self.a[y]
            if op == "addge":
                if b is None:
                    return
                s("gej_addge", d=d, x=x, y=y)
            else:
                s("gej_addgev", d=d, x=x, y=y, rzr=p is not None and r.random() < .6)
            self.j[d] = add(p, b)
        elif op == "addz":
            b = self.relative(p)
            w = r.choice([1, 2, P - 1, BETA, r.randrange(1, P), r.randrange(1, P)])
            if b is None:
                s("gej_addz", d=d, x=x, bx=h(0), by=h(0), binf=True, zinv=h(w), rep=0)
            else:
                wi = inv(w, P)
                s("gej_addz", d=d, x=x, bx=h(b[0] * wi * wi % P), by=h(b[1] * wi**3 % P), binf=False, zinv=h(w),
                  rep=r.choice([0, 0, 1, 2, 3, 4]))
            self.j[d] = add(p, b)
        elif op == "aff":
            s("gej_aff", d=d, x=x, kind=r.choice(["ct", "var", "from", "zinv"]))
            self.a[d] = p
        elif op == "eqx" and p is not None:
            v = r.choice([p[0], p[0], (p[0] + 1) % P, p[1], beta(p)[0], 0, P - p[0]])
            rep = r.choice([0, 1, 2, 3, 4])
            if rep and v + P < 2**256:
                v += P
            s("gej_eqx", x=x, v=h(v), rep=rep)
        elif op == "quad":
            s("gej_quady", x=x)
        elif op == "tbl" and p is not None and r.random() < .4:
            s("tbl", x=x, n=r.choice([1, 2, 3, 8, 8, 16]))
        elif op == "aneg" and self.a:
            y = r.choice(list(self.a))
            s("ge_neg", d=d, x=y)("ge_isinf", x=y)
            self.a[d] = neg(self.a[y])
        elif op == "sto" and self.a:
            y = r.choice(list(self.a))
            if self.a[y] is not None:
                s("ge_store", d=d, x=y)
                self.a[d] = self.a[y]
        elif op == "aeq" and self.a:
            y, z = r.choice(list(self.a)), r.choice(list(self.a))
            if r.random() < .5 and self.a[y]:
                z = 9
                self.aff(z, self.relative(self.a[y]))
            if self.a[y] is not None and self.a[z] is not None:
                s("ge_eq", x=y, y=z)


def valid_cases(rng):
    p = rng.choice(curve_points(rng))
    x, y = p
    c = rng.randrange(7)
    return [(x, y), (x, P - y), (x, (y + 1) % P), (y, x), ((x + 1) % P, y), (0, 0), (rng.randrange(P), rng.randrange(P))][c]


def c19(rng, q):
    sc = Script()
    for k in range(200 * q):
        s = sc.new("ge")
        g = GroupGen(s, rng, curve_points(rng))
        while len(s.ev) < 45:
            g.step()
    # every relation, every operation, several representations
    rels = [lambda p: p, neg, beta, lambda p: neg(beta(p)), lambda p: beta(beta(p)), lambda p: neg(beta(beta(p))), lambda p: None,
            lambda p: add(p, p), lambda p: neg(add(p, p)), lambda p: mul(5)]
    for p in rng.sample(curve_points(rng), 6) + [None]:
        for rel in rels:
            b = mul(7) if p is None and rel in rels[:1] else (rel(p) if p else None)
            for _ in range(q):
                s = sc.new("rel")
                g = GroupGen(s, rng, [G])
                g.jac(0, p)
                g.jac(1, b)
                g.aff(2, b)
                s("gej_add", d=3, x=0, y=1, rzr=p is not None)("gej_add", d=4, x=1, y=0, rzr=b is not None)
                s("gej_addgev", d=3, x=0, y=2, rzr=p is not None)
                if b:
                    s("gej_addge", d=4, x=0, y=2)
                    w = rng.randrange(1, P)
                    wi = inv(w, P)
                    s("gej_addz", d=3, x=0, bx=h(b[0] * wi * wi % P), by=h(b[1] * wi**3 % P), binf=False, zinv=h(w), rep=0)
                else:
                    s("gej_addz", d=3, x=0, bx=h(5), by=h(6), binf=True, zinv=h(3), rep=0)
                s("gej_neg", d=5, x=3)("gej_add", d=6, x=3, y=5, rzr=False)("gej_dbl", d=7, x=6, rzr=True)
                # what was infinity is used again
                s("gej_add", d=8, x=6, y=0, rzr=False)("gej_add", d=8, x=0, y=6, rzr=p is not None)
                if b:
                    s("gej_addge", d=8, x=6, y=2)
                s("gej_addgev", d=8, x=6, y=2, rzr=False)("gej_quady", x=6)("gej_aff", d=3, x=6, kind="ct")
    s = sc.new("xo")
    xs = [0, 1, 2, 3, 4, 5, 6, 7, P - 1, P - 2, P - 3, N, BETA] + [rng.randrange(P) for _ in range(150 * q)] + \
        [p[0] for p in curve_points(rng)]
    for k, x in enumerate(xs):
        if k % 15 == 0:
            s = sc.new("xo")
        rep = rng.choice([0, 1, 2, 3, 4, 5])
        v = x + P if rep and x + P < 2**256 else x
        s("ge_xo", d=0, x=h(v), odd=True, rep=rep)("ge_xo", d=1, x=h(v), odd=False, rep=rep)("ge_xquad", d=2, x=h(v), rep=rep)
    s = sc.new("valid")
    for k in range(200 * q):
        if k % 25 == 0:
            s = sc.new("valid")
        x, y = valid_cases(rng)
        rep = rng.choice([0, 1, 2, 3, 4, 5])
        s("ge_valid", x=h(x), y=h(y), inf=rng.random() < .1, rep=rep)
    s("ge_gen", d=0)("gej_inf", d=0, alt=False)("gej_inf", d=1, alt=True)("gej_dbl", d=2, x=0, rzr=True)
    return sc


# ---- multiplication (C20) -----------------------------------------------------------------
def mult_scalars(rng):
    """Scalars whose window digits, recodings or partial sums are special."""
    r = [rng.choice(SC), pat(rng), runs(rng), rnz(rng)]
    c = rng.randrange(6)
    if c == 0:      # isolated odd digits
        r.append(sum(rng.choice([1, 3, 5, 7, 9, 11, 13, 15]) << i for i in range(rng.randrange(8), 250, rng.choice([5, 6, 16, 17]))) % N)
    elif c == 1:
        d = rng.randrange(1, 16)
        r.append(sum(d << (4 * i) for i in range(64)) % N)
    elif c == 2:
        r.append(sum(rng.choice([0, 15, 1, 8]) << (4 * i) for i in range(64)) % N)
    elif c == 3:
        r.append((2**255 + rng.choice([-1, 0, 1, 2])) % N)
    elif c == 4:
        r.append(rng.choice([1, 2, 3, N - 1, N - 2, N - 3, HALF, HALF + 1]))
    else:
        r.append(rng.choice([2**k for k in range(256)]) % N)
    return rng.choice(r)


def c20(rng, q):
    sc = Script()

    def ecm(s, p, na, ng, scale=None):
        s("ge_set", d=0, x=h(p[0]), y=h(p[1]), rep=rng.choice([0, 1, 4]))("gej_from", d=0, x=0)
        if scale:
            s("gej_rescale", d=0, x=0, s=h(scale))
        s("ecm", d=1, x=0, na=h(na % N), ng=h(ng % N), ctx=s.ctx())

    for _ in range(110 * q):
        s = sc.new("ecm")
        for _ in range(6):
            k = rng.choice([1, 2, 3, N - 1, N - 2, (N + 1) // 2, rng.randrange(1, N), rng.randrange(1, N)])
            p = mul(k)
            na, ng = mult_scalars(rng), mult_scalars(rng)
            c = rng.randrange(8)
            if c == 0:      # the result is infinity
                ng = -na * k
            elif c == 1:    # na*P = ng*G: a doubling at the end
                ng = na * k
            elif c == 2:
                na = 0
            elif c == 3:
                ng = 0
            elif c == 4:    # one apart
                ng = -na * k + rng.choice([1, -1, 2, 3])
            elif c == 5:    # partial sums meet: the high part cancels
                t = rng.randrange(5, 250)
                u = rng.randrange(1, 2**(250 - t)) << t
                na, ng = u + rng.getrandbits(4), (-u * k) % N + rng.getrandbits(3)
            ecm(s, p, na, ng, rng.choice([None, rng.randrange(1, P), 2, P - 1]))
    # small multiples of G and of -G against small multiples of G
    s = sc.new("small")
    t = 0
    for k in (1, N - 1, 2, N - 2, 3):
        for na in range(-4, 5):
            for ng in rng.sample(range(-9, 10), 4 if q == 1 else 19):
                if t % 10 == 0:
                    s = sc.new("small")
                t += 1
                ecm(s, mul(k), na % N, ng % N, None if rng.random() < .5 else rng.randrange(1, P))
    for _ in range(70 * q):
        s = sc.new("ecc")
        for _ in range(7):
            p = mul(rng.randrange(1, N)) if rng.random() < .6 else rng.choice([G, neg(G), beta(G), mul(2), mul(3), mul(HALF)])
            k = mult_scalars(rng) or 1
            s("ge_set", d=0, x=h(p[0]), y=h(p[1]), rep=rng.choice([0, 1, 4]))("ecc", d=1, x=0, k=h(k), ctx=s.ctx())
    s = sc.new("ecc")
    for t, k in enumerate(list(range(1, 40)) + [N - k for k in range(1, 40)] + [HALF + d for d in range(-4, 5)] +
                          [2**j + d for j in rng.sample(range(5, 255), 20 * q) for d in (-1, 0, 1)]):
        if t % 12 == 0:
            s = sc.new("ecc")
        p = rng.choice([G, mul(rng.randrange(1, N))])
        s("ge_set", d=0, x=h(p[0]), y=h(p[1]), rep=0)("ecc", d=1, x=0, k=h(k), ctx=s.ctx())
    # minus a scalar that is one but for a single bit, and the like
    for t, k in enumerate([v for j in range(1, 256) for v in (N - 1 - 2**j, 1 + 2**j) if 0 < v < N]):
        if t % 12 == 0:
            s = sc.new("ecc")
        s("ge_gen", d=0)("ecc", d=1, x=0, k=h(k), ctx=s.ctx())
    s = sc.new("ecg")
    from api import comb_scalars
    for t, k in enumerate([0, 1, N - 1] + comb_scalars(rng) + [mult_scalars(rng) for _ in range(300 * q)]):
        if t % 12 == 0:
            s = sc.new("ecg")
        s("ecg", d=0, k=h(k % N), ctx=s.ctx())
    return sc


# ---- tables (C21) --------------------------------------------------------------------------
def c21(rng, q):
    sc = Script()
    for ctx in ("static", "boxed"):
        for f in range(0, 16384, 64):
            sc.new("tab")("tab_g", **{"from": f}, n=64, ctx=ctx)
        for j in range(64):
            sc.new("gen")("tab_gen", j=j, ctx=ctx)
        sc.new("sum")("tab_sum", ctx=ctx)
    sc.new("same")("tab_same")
    for _ in range(30 * q):
        s = sc.new("use")
        for _ in range(3):
            p, na, ng, k = mul(rng.randrange(1, N)), mult_scalars(rng), mult_scalars(rng), mult_scalars(rng) or 1
            s("ge_set", d=0, x=h(p[0]), y=h(p[1]), rep=0)("gej_from", d=0, x=0)
            for ctx in ("static", "boxed"):
                s("ecm", d=1, x=0, na=h(na), ng=h(ng), ctx=ctx)("ecc", d=1, x=0, k=h(k), ctx=ctx)("ecg", d=2, k=h(k), ctx=ctx)
    # every entry of both tables is reached
    t = 0
    for i in rng.sample(range(16384), 250 * q):
        if t % 10 == 0:
            s = sc.new("hit")
        t += 1
        k = (2 * i + 1) << rng.randrange(0, 200)
        k = k if rng.random() < .5 else -k
        s("ge_gen", d=0)("gej_from", d=0, x=0)("ecm", d=1, x=0, na=h(rng.choice([0, 1])), ng=h(k % N), ctx=s.ctx())
    s = sc.new("hit")
    for j in range(64):
        for i in range(16):
            if t % 16 == 0:
                s = sc.new("hit")
            t += 1
            s("ecg", d=0, k=h((sum(rng.randrange(16) << (4 * u) for u in range(64) if u != j) + (i << (4 * j)) - BLIND) % N), ctx=s.ctx())
    return sc


GENS = {"C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21}


# ---- calls next to related calls ------------------------------------------------------------
def next_to(i, fn, n):
    f = GENS[i]

    def g(rng, q):
        sc = f(rng, q)
        fn(sc, rng, max(1, int(n * q)))
        return sc
    GENS[i] = g


next_to("C17", rel.scalars_next, 60)
next_to("C18", rel.field_next, 60)
next_to("C19", rel.group_next, 50)
next_to("C20", rel.mult_next, 60)
for _i, _op in (("C17", "scalars"), ("C18", "field"), ("C19", "group"), ("C20", "mult")):
    next_to(_i, rel.every(_op), 1)
