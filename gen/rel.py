"""Calls next to closely related calls.

Nothing may be kept from one call to the next, and no argument may be looked at
only in part. So every call is followed by one whose arguments share all but one
part with it (a word, a half, the parity, the sign, the order of the words, their
sum or exclusive or), and then by the first one again."""
from base import *


def twin(rng, v, bound=N, low=1):
    """A number in [low, bound) that agrees with v in part."""
    for _ in range(50):
        c = rng.randrange(16)
        ws = words_of(v)
        i, j = rng.sample(range(8), 2)
        if c <= 2:                      # one word differs
            ws[i] = rng.choice([rng.getrandbits(32), ws[i] ^ (1 << rng.randrange(32)), (ws[i] + 1) & 0xFFFFFFFF])
        elif c == 3:                    # only one word agrees
            ws = [w if k == i else rng.getrandbits(32) for k, w in enumerate(ws)]
        elif c == 4:                    # the upper part differs
            ws = [w if k < max(1, i) else rng.getrandbits(32) for k, w in enumerate(ws)]
        elif c == 5:                    # the lower part differs
            ws = [rng.getrandbits(32) if k < max(1, i) else w for k, w in enumerate(ws)]
        elif c == 6:
            ws[i], ws[j] = ws[j], ws[i]
        elif c == 7:
            ws = ws[i:] + ws[:i]
        elif c == 8:
            ws.reverse()
        elif c == 9:                    # the sum of the words stays
            d = rng.getrandbits(rng.choice([1, 8, 32])) or 1
            ws[i], ws[j] = (ws[i] + d) & 0xFFFFFFFF, (ws[j] - d) & 0xFFFFFFFF
        elif c == 10:                   # the exclusive or stays
            d = rng.getrandbits(32) or 1
            ws[i] ^= d
            ws[j] ^= d
        elif c == 11:
            ws = words_of((N - v) % N)
        elif c == 12:
            ws = words_of((v + rng.choice([1, -1, 2, 1 << 32, -(1 << 32), 1 << 128])) % bound)
        elif c == 13:
            ws = words_of(int.from_bytes(v.to_bytes(32, "little"), "big"))
        elif c == 14:                   # one octet
            ws = words_of(v ^ (rng.randrange(1, 256) << (8 * rng.randrange(32))))
        else:                           # one bit
            ws = words_of(v ^ (1 << rng.randrange(256)))
        t = w8(ws)
        if low <= t < bound and t != v:
            return t
    return v + 1 if v + 1 < bound else low


def xtwin(rng, p):
    """A point that shares something with p."""
    c = rng.randrange(8)
    if c <= 2:
        return neg(p)
    if c == 3:
        return beta(p)
    if c == 4:
        return beta(neg(p))
    for _ in range(60):
        q = lift(twin(rng, p[0], P, 0), rng.choice([p[1] & 1, rng.randrange(2)]))
        if q:
            return q
    return neg(p)


def part(rng, v, keep, bound=N, low=1):
    """A number that agrees with v in the octets to keep (counted from the least significant)."""
    vs = v.to_bytes(32, "little")
    for _ in range(60):
        t = int.from_bytes(bytes(o if keep(k) else rng.randrange(256) for k, o in enumerate(vs)), "little")
        if low <= t < bound and t != v:
            return t
    return None


def point_part(rng, p, keep):
    """A point on the same side of which the x coordinate agrees so with that of p."""
    for _ in range(60):
        x = part(rng, p[0], keep, P, 0)
        q = x is not None and lift(x, p[1] & 1)
        if q:
            return q
    return None


def cuts(full):
    """Which octets stay: all but one, those below one, those above one; one word."""
    for j in range(32):
        modes = [lambda k: k != j, lambda k: k < j, lambda k: k > j]
        for m in range(3):
            if full or (j + m) % 3 == 0:
                yield modes[m]
    for j in range(8):
        yield lambda k: k // 4 == j


def every_part(rng, args, kinds):
    """The arguments with one of them replaced by one that agrees with it in part, in every way."""
    for i, kind in enumerate(kinds):
        if kind == "-":
            continue
        for keep in cuts(kind == "p"):
            v = args()
            t = {"k": lambda: part(rng, v[i], keep), "z": lambda: part(rng, v[i], keep, N, 0),
                 "f": lambda: part(rng, v[i], keep, P, 0), "p": lambda: point_part(rng, v[i], keep)}[kind]()
            if t is not None:
                yield v, v[:i] + (t,) + v[i + 1:]


def val(rng):
    return rng.choice([rng.randrange(1, N), rng.randrange(1, N), pat(rng) or 1, rnz(rng)])


def turns(a, b):
    """a, b, a, a, b, b, a: each after each, itself included."""
    return [a, b, a, a, b, b, a]


def sign(sc, rng, n):
    for _ in range(n):
        s = sc.new("next")
        d, z = val(rng), val(rng)
        d2, z2 = rng.choice([(d, twin(rng, z, N, 0)), (twin(rng, d), z), (twin(rng, d), twin(rng, z, N, 0)), (z, d), (d, d)])
        ctx = s.ctx()
        for i, (k, m) in enumerate(turns((d, z), (d2, z2))):
            s.sk(0, k).ms(0, m)("sign", k=0, m=0, g=0, i=0, ctx=ctx if rng.randrange(3) else s.ctx())


def some_sig(rng):
    d, k, z = val(rng), val(rng), val(rng) % N
    r = mul(k)[0] % N
    return d, mul(d), z, r, inv(k, N) * (z + r * d) % N


def verify(sc, rng, n, recover=False):
    for _ in range(n):
        d, Q, z, r, v = some_sig(rng)
        if not r or not v:
            continue
        s = sc.new("next")
        a = (Q, z, r, v)
        for _ in range(3):
            b = rng.choice([(xtwin(rng, Q), z, r, v), (Q, twin(rng, z, N, 0), r, v), (Q, z, twin(rng, r), v),
                            (Q, z, r, twin(rng, v)), (Q, z, v, r), (Q, r, z or 1, v), (neg(Q), z, r, N - v),
                            (Q, (N - z) % N, r, N - v)])
            ctx = s.ctx()
            for i, (p, m, x, y) in enumerate(turns(a, b)[:5]):
                s.ms(0, m).sg(0, x, y)
                if recover:
                    j = rng.randrange(2)
                    s.ri(0, j)("recover", g=0, m=0, i=0, d=0, ctx=ctx)
                    if rng.randrange(2):
                        s.ri(0, 1 - j)("recover", g=0, m=0, i=0, d=0, ctx=ctx)
                else:
                    s.pk(0, p)("verify", g=0, m=0, p=0, ctx=ctx)


def derive(sc, rng, n):
    for _ in range(n):
        s = sc.new("next")
        a = val(rng)
        for _ in range(2):
            ctx = s.ctx()
            for k in turns(a, twin(rng, a))[:5]:
                s.sk(0, k)("pk_derive", k=0, d=0, ctx=ctx)


def bad_x(rng, x):
    for _ in range(60):
        t = twin(rng, x, P, 0)
        if not lift(t):
            return t
    return next(t for t in range(x + 1, x + 99) if not lift(t))


def decode(sc, rng, n):
    for _ in range(n):
        s = sc.new("next")
        p = mul(val(rng))
        q = xtwin(rng, p)
        x2 = bad_x(rng, p[0])
        b = rng.choice([comp(q), full(q), "02" + h(x2), "03" + h(x2), "04" + h(x2) + h(p[1]), "04" + h(p[0]) + h(twin(rng, p[1], P, 0)),
                        "06" + full(q)[2:], "07" + full(q)[2:], full(q)[2:], "00" + comp(p)[2:]])
        for t in turns(rng.choice([comp(p), comp(p), full(p)]), b):
            if len(t) == 66:
                s(*rng.choice([("pk_parse_comp",), ("pk_parse_comp",), ("pk_parse_slice",)]), d=0, b=t)
                if s.ev[-1]["op"] == "pk_parse_slice":
                    s.ev[-1]["a"]["fmt"] = rng.choice(["none", "comp"])
            elif len(t) == 130:
                s("pk_parse", d=0, b=t)
            else:
                s("pk_parse_slice", d=0, b=t, fmt="none")


def tweak(sc, rng, n):
    for _ in range(n):
        s = sc.new("next")
        k, t = val(rng), val(rng)
        t = rng.choice([t, t, N - k])
        k2, t2 = rng.choice([(k, twin(rng, t)), (twin(rng, k), t), (t, k), (k, N - t), (k, twin(rng, N - k)), (N - k, t)])
        P1, P2 = mul(k), mul(k2)
        if rng.randrange(3) == 0:
            P2, t2 = xtwin(rng, P1), t
        for (x, p, y) in turns((k, P1, t), (k2, P2, t2))[:5]:
            s.sk(0, x).sk(1, y).pk(0, p)
            add = rng.randrange(3)
            s("sk_tadd" if add else "sk_tmul", k=0, t=1)("pk_tadd" if add else "pk_tmul", p=0, t=1, ctx=s.ctx())
            if rng.randrange(4) == 0:
                s("sk_inv", k=1, d=2)


def combine(sc, rng, n):
    for _ in range(n):
        s = sc.new("next")
        p, q = mul(val(rng)), mul(val(rng))
        a = [p, q] + [mul(val(rng)) for _ in range(rng.randrange(3))]
        b = rng.choice([[neg(p)] + a[1:], a[::-1], [xtwin(rng, p)] + a[1:], a[:-1] + [xtwin(rng, a[-1])], a[1:], [neg(x) for x in a],
                        [p, xtwin(rng, p)], [p, p]])
        for t in turns(a, b)[:5]:
            for j, x in enumerate(t):
                s.pk(j, x)
            s("pk_combine", ps=list(range(len(t))), d=9)


def agree(sc, rng, n):
    for _ in range(n):
        s = sc.new("next")
        p, k = mul(val(rng)), val(rng)
        q, l = rng.choice([(xtwin(rng, p), k), (xtwin(rng, p), k), (p, twin(rng, k)), (neg(p), N - k), (beta(p), k)])
        ctx, dig = s.ctx(), rng.choice(["id33", "sha256"])
        for (x, y) in turns((p, k), (q, l))[:5]:
            s.pk(0, x).sk(0, y)("ecdh", p=0, k=0, dig=dig, ctx=ctx)


def invert(sc, rng, n):
    for _ in range(n):
        s = sc.new("next")
        a = val(rng)
        for k in turns(a, twin(rng, a)):
            s.sk(0, k)("sk_inv", k=0, d=1)("sk_ser", k=0)


def mixed(sc, rng, n):
    """Different operations on related values, one after the other."""
    for _ in range(n):
        s = sc.new("mixed")
        vs = [val(rng), val(rng)]
        vs += [twin(rng, vs[0]), twin(rng, vs[1])]
        for _ in range(9):
            a, b, c = (rng.choice(vs) for _ in range(3))
            p = mul(a)
            if rng.randrange(3) == 0:
                p = xtwin(rng, p)
            s.sk(0, a).sk(1, b).pk(0, p).ms(0, c).sg(0, b, c).ri(0, rng.randrange(4))
            o = rng.randrange(8)
            if o == 0:
                s("sign", k=0, m=0, g=1, i=1, ctx=s.ctx())("verify", g=1, m=0, p=0, ctx=s.ctx())("recover", g=1, m=0, i=1, d=1, ctx=s.ctx())
            elif o == 1:
                s("verify", g=0, m=0, p=0, ctx=s.ctx())("recover", g=0, m=0, i=0, d=1, ctx=s.ctx())
            elif o == 2:
                s("pk_derive", k=0, d=1, ctx=s.ctx())("pk_eq", p=0, q=1)
            elif o == 3:
                s("sk_tadd", k=0, t=1)("pk_tadd", p=0, t=1, ctx=s.ctx())
            elif o == 4:
                s("sk_tmul", k=0, t=1)("pk_tmul", p=0, t=1, ctx=s.ctx())
            elif o == 5:
                s("ecdh", p=0, k=1, dig="sha256", ctx=s.ctx())
            elif o == 6:
                s("pk_derive", k=1, d=1, ctx=s.ctx())("pk_combine", ps=[0, 1], d=2)("pk_combine", ps=[0, 0, 1], d=3)
            else:
                s("pk_parse_comp", d=1, b=comp(p))("pk_parse_comp", d=2, b=comp(neg(p)))("pk_eq", p=1, q=2)


def parts(sc, rng, n, op):
    """Every argument of a call changed in every part, and back."""
    def keys():
        return mul(val(rng))

    def sig():
        while True:
            d, Q, z, r, v = some_sig(rng)
            if r and v:
                return Q, z, r, v
    args, kinds = {
        "verify": (sig, "pzkk"), "recover": (sig, "-zkk"), "sign": (lambda: (val(rng), val(rng)), "kz"),
        "derive": (lambda: (val(rng),), "k"), "decode": (lambda: (keys(),), "p"), "invert": (lambda: (val(rng),), "k"),
        "tweak": (lambda: (val(rng), keys(), val(rng)), "kpk"), "combine": (lambda: (keys(), keys(), keys()), "pp-"),
        "agree": (lambda: (keys(), val(rng)), "pk"), "mult": (lambda: (keys(), val(rng), val(rng)), "pkk"),
        "group": (lambda: (keys(), keys()), "pp"), "scalars": (lambda: (val(rng), val(rng)), "kk"),
        "field": (lambda: (rng.randrange(P), rng.randrange(P)), "ff")}[op]
    for _ in range(n):
        for a, b in every_part(rng, args, kinds):
            s = sc.new("parts")
            ctx, dig, add, j = s.ctx(), rng.choice(["id33", "sha256"]), rng.randrange(3), rng.randrange(2)
            for v in (a, b, a):
                if op == "verify":
                    s.pk(0, v[0]).ms(0, v[1]).sg(0, v[2], v[3])("verify", g=0, m=0, p=0, ctx=ctx)
                elif op == "recover":
                    s.ms(0, v[1]).sg(0, v[2], v[3]).ri(0, j)("recover", g=0, m=0, i=0, d=0, ctx=ctx)
                elif op == "sign":
                    s.sk(0, v[0]).ms(0, v[1])("sign", k=0, m=0, g=0, i=0, ctx=ctx)
                elif op == "derive":
                    s.sk(0, v[0])("pk_derive", k=0, d=0, ctx=ctx)
                elif op == "decode":
                    s("pk_parse_comp", d=0, b=comp(v[0]))("pk_ser", p=0)
                elif op == "invert":
                    s.sk(0, v[0])("sk_inv", k=0, d=1)("sk_ser", k=1)
                elif op == "tweak":
                    s.sk(0, v[0]).pk(0, v[1]).sk(1, v[2])
                    s("sk_tadd" if add else "sk_tmul", k=0, t=1)("pk_tadd" if add else "pk_tmul", p=0, t=1, ctx=ctx)
                elif op == "combine":
                    s.pk(0, v[0]).pk(1, v[1]).pk(2, v[2])("pk_combine", ps=[0, 1, 2][:2 + add], d=3)
                elif op == "agree":
                    s.pk(0, v[0]).sk(0, v[1])("ecdh", p=0, k=0, dig=dig, ctx=ctx)
                elif op == "mult":
                    s("ge_set", d=0, x=h(v[0][0]), y=h(v[0][1]), rep=0)("gej_from", d=0, x=0)
                    s("ecm", d=1, x=0, na=h(v[1]), ng=h(v[2]), ctx=ctx)("ecc", d=2, x=0, k=h(v[1]), ctx=ctx)("ecg", d=3, k=h(v[2]), ctx=ctx)
                elif op == "group":
                    for d, p in enumerate(v):
                        s("ge_set", d=d, x=h(p[0]), y=h(p[1]), rep=0)("gej_from", d=d, x=d)
                    s("gej_add", d=2, x=0, y=1, rzr=False)("gej_addge", d=3, x=0, y=1)("gej_addgev", d=4, x=0, y=1, rzr=True)
                    s("gej_dbl", d=5, x=0, rzr=False)("gej_aff", d=3, x=2, kind="var")
                elif op == "scalars":
                    s("sc1", x=h(v[0]))("sc2", x=h(v[0]), y=h(v[1]))
                else:
                    s("fe_b32", d=0, b=h(v[0]))("fe_b32", d=1, b=h(v[1]))("fe_mul", d=2, x=0, y=1)("fe_sqr", d=3, x=0)
                    s("fe_inv", d=4, x=0)("fe_sqrt", d=5, x=0)


# ---- the same for the arithmetic layer -----------------------------------------------------
def scalars_next(sc, rng, n):
    for _ in range(n):
        s = sc.new("next")
        x, y = val(rng), val(rng)
        x2, y2 = rng.choice([(twin(rng, x), y), (x, twin(rng, y)), (y, x), (x, x)])
        for (a, b) in turns((x, y), (x2, y2))[:5]:
            s("sc1", x=h(a))("sc2", x=h(a), y=h(b))


def field_next(sc, rng, n):
    for _ in range(n):
        s = sc.new("next")
        x = rng.choice([rng.randrange(P), pat(rng, P)])
        y = rng.choice([rng.randrange(P), pat(rng, P)])
        x2, y2 = rng.choice([(twin(rng, x, P, 0), y), (x, twin(rng, y, P, 0)), (y, x), (x, x), (P - x if x else 0, y)])
        for (a, b) in turns((x, y), (x2, y2))[:4]:
            s("fe_b32", d=0, b=h(a))("fe_b32", d=1, b=h(b))("fe_mul", d=2, x=0, y=1)("fe_sqr", d=3, x=0)
            s("fe_inv", d=4, x=0)("fe_sqrt", d=5, x=0)


def mult_next(sc, rng, n):
    for _ in range(n):
        s = sc.new("next")
        p, a, b = mul(val(rng)), val(rng), val(rng)
        q, c, d = rng.choice([(xtwin(rng, p), a, b), (p, twin(rng, a), b), (p, a, twin(rng, b)), (p, b, a), (neg(p), N - a, b)])
        ctx = s.ctx()
        for (x, u, v) in turns((p, a, b), (q, c, d))[:4]:
            s("ge_set", d=0, x=h(x[0]), y=h(x[1]), rep=0)("gej_from", d=0, x=0)
            s("ecm", d=1, x=0, na=h(u), ng=h(v), ctx=ctx)("ecc", d=2, x=0, k=h(u), ctx=ctx)("ecg", d=3, k=h(v), ctx=ctx)


def group_next(sc, rng, n):
    for _ in range(n):
        s = sc.new("next")
        p, q = mul(val(rng)), mul(val(rng))
        p2, q2 = rng.choice([(xtwin(rng, p), q), (p, xtwin(rng, q)), (q, p), (p, neg(p)), (p, p)])
        for (x, y) in turns((p, q), (p2, q2))[:4]:
            s("ge_set", d=0, x=h(x[0]), y=h(x[1]), rep=0)("gej_from", d=0, x=0)
            s("ge_set", d=1, x=h(y[0]), y=h(y[1]), rep=0)("gej_from", d=1, x=1)
            s("gej_add", d=2, x=0, y=1, rzr=False)("gej_addge", d=3, x=0, y=1)("gej_addgev", d=4, x=0, y=1, rzr=True)
            s("gej_dbl", d=5, x=0, rzr=False)("gej_aff", d=3, x=2, kind="var")
            s("gej_rescale", d=6, x=2, s=h(rng.randrange(2, P)))("gej_aff", d=4, x=6, kind="ct")


def every(op):
    return lambda sc, rng, n: parts(sc, rng, n, op)
