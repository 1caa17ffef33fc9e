"""Scripts for the executors clear and conc."""
import low
from base import *


def erase(rng, q):
    """Sessions of one kind; the values differ in every octet."""
    sc = Script()
    for kind, m in (("sk", 1), ("scalar", 1), ("field", 1), ("affine", 2), ("jacobian", 3)):
        bound = N if kind in ("sk", "scalar") else P

        def val(c):
            if c == 0:
                return rng.randrange(1, bound)
            if c == 1:
                return max(1, pat(rng, bound))
            if c == 2:
                return rnz(rng)
            return rng.choice([1, 2, bound - 1, 2**255, 2**128, int("ab" * 32, 16), int("55" * 32, 16)])
        for i in range(int(6 * q)):
            s = sc.new(kind)
            for j in range(24):
                v = "".join(h(val(rng.randrange(4))) for _ in range(m))
                s("clear_" + kind, v=v, rep=rng.choice([1, 1, 2, 3, 5, 8]), inf=bool(rng.randrange(2)))
    return sc


def conc(rng, n):
    """Sessions for the executor conc: a program per thread."""
    out = []
    for i in range(n):
        T = rng.choice([2, 3, 4, 8, 8, 12])
        kind = rng.randrange(4)
        th = []
        common = Session("c")
        for t in range(T):
            s = Session("t")
            # what the thread starts with decides which table is raced for
            d, e = rng.randrange(1, N), rng.randrange(1, N)
            z = rng.getrandbits(256) % N
            Q = mul(e)
            first = rng.randrange(6) if kind else i % 6
            head = [lambda: s("peek", which="mul"), lambda: s("peek", which="gen"),
                    lambda: s.sk(0, d)("pk_derive", k=0, d=0, ctx="static"),
                    lambda: s.sk(0, d).pk(1, Q)("ecdh", p=1, k=0, dig="sha256", ctx="static"),
                    lambda: s.sk(0, d).ms(0, z)("sign", k=0, m=0, g=0, i=0, ctx="static"),
                    lambda: s.sk(0, d).pk(1, Q)("pk_tadd", p=1, t=0, ctx="static")]
            head[first]()
            if rng.randrange(2):
                s("peek", which="mul")("peek", which="gen")
            for r in range(rng.randrange(1, 4)):
                c = "static" if rng.randrange(3) else "boxed"
                s.sk(0, d).pk(1, Q).ms(0, z)
                s("pk_derive", k=0, d=0, ctx=c)("sign", k=0, m=0, g=0, i=0, ctx=c)
                s("verify", g=0, m=0, p=0, ctx=c)("recover", g=0, m=0, i=0, d=2, ctx=c)("pk_eq", p=0, q=2)
                s("verify", g=0, m=0, p=1, ctx=c)("ecdh", p=1, k=0, dig="sha256", ctx=c)
                s("pk_tmul", p=1, t=0, ctx=c)("pk_tadd", p=1, t=0, ctx=c)("pk_combine", ps=[0, 1, 2], d=3)
                s("sk_tadd", k=0, t=0)("sk_inv", k=0, d=5)("pk_ser", p=3)("sg_ser_der", g=0)("sg_norm", g=0)
                d, z = rng.randrange(1, N), rng.getrandbits(256) % N
            s("peek", which="mul")("peek", which="gen")("dump")
            th.append({"spin": rng.choice([0, 0, 0, rng.randrange(2000), rng.randrange(100000)]), "ev": s.ev})
        out.append({"id": f"race-{i}", "rep": rng.choice([1, 2, 6]), "th": th})
    return out


def storms(rng, ms, rounds):
    """Sessions in which eight threads do the same thing over and over, each on its own values."""
    out = []
    kinds = {
        "ecdh": lambda s, c: [s("ecdh", p=1, k=0, dig="sha256", ctx=c) for _ in range(4)],
        "sign": lambda s, c: [s("sign", k=0, m=0, g=0, i=0, ctx=c) for _ in range(3)],
        "verify": lambda s, c: s("sign", k=0, m=0, g=0, i=0, ctx=c)("pk_derive", k=0, d=0, ctx=c)(
            "verify", g=0, m=0, p=0, ctx=c)("verify", g=0, m=0, p=1, ctx=c)("verify", g=0, m=0, p=0, ctx=c),
        "recover": lambda s, c: s("sign", k=0, m=0, g=0, i=0, ctx=c)("recover", g=0, m=0, i=0, d=2, ctx=c)(
            "recover", g=0, m=0, i=0, d=3, ctx=c)("pk_eq", p=2, q=3)("pk_ser", p=3),
        "derive": lambda s, c: [s("pk_derive", k=0, d=d, ctx=c)("pk_ser", p=d) for d in (2, 3, 4)],
        "tweak": lambda s, c: s("pk_tadd", p=1, t=0, ctx=c)("pk_ser", p=1)("pk_tmul", p=1, t=0, ctx=c)("pk_serc", p=1)(
            "sk_tadd", k=0, t=0)("sk_tmul", k=0, t=0)("sk_inv", k=0, d=1)("sk_ser", k=1),
        "combine": lambda s, c: s("pk_combine", ps=[1, 1], d=2)("pk_combine", ps=[1, 2, 1], d=3)("pk_ser", p=3)("pk_serc", p=2),
        "codec": lambda s, c: s("sign", k=0, m=0, g=0, i=0, ctx=c)("sg_ser_der", g=0)("sg_ser", g=0)("sg_norm", g=0)(
            "pk_json", p=1)("pk_bin", p=1)("sk_hex", k=0)("sk_ser", k=0)("pk_serc", p=1)("ms_ser", m=0),
    }
    def decode(s, c, Q):
        s("pk_parse_comp", d=2, b=comp(Q))("pk_ser", p=2)("pk_parse_slice", d=3, b=full(Q), fmt="none")("pk_serc", p=3)
        s("pk_parse_comp", d=3, b=comp(neg(Q)))("pk_ser", p=3)("pk_eq", p=2, q=3)

    def step(s, kind, v, c):
        d, Q, z = v
        s.sk(0, d).pk(1, Q).ms(0, z)
        if kind == "decode":
            decode(s, c, Q)
        else:
            kinds[kind](s, c)
    names = list(kinds) + ["decode"]
    for i in range(rounds):
        for kind in names:
            th = []
            for t in range(8):
                s = Session("t")
                step(s, kind, (rng.randrange(1, N), mul(rng.randrange(1, N)), rng.getrandbits(256) % N),
                     "static" if rng.randrange(3) else "boxed")
                th.append({"spin": 0, "ev": s.ev})
            out.append({"id": f"storm-{kind}-{i}", "rep": 2, "ms": ms, "th": th})
        # the same few values in all threads, in different orders: what one thread is busy
        # with, another has just begun or ended
        for kind in names:
            pool = [(rng.randrange(1, N), mul(rng.randrange(1, N)), rng.getrandbits(256) % N) for _ in range(3)]
            th = []
            for t in range(8):
                s, v = Session("t"), list(rng.choice(pool))
                for _ in range(6):
                    w = rng.choice(pool)
                    v = rng.choice([v, list(w), list(w), [w[0]] + v[1:], [v[0], w[1], v[2]], v[:2] + [w[2]]])
                    step(s, kind, v, "static" if rng.randrange(4) else "boxed")
                th.append({"spin": 0, "ev": s.ev})
            out.append({"id": f"shared-{kind}-{i}", "rep": 2, "ms": ms, "th": th})
    return out


LAMBDA = 0x5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72
LEAKS = ["derive", "sign", "sign_raw", "ecdh", "secret_key", "scalar", "product", "field", "cmov", "group", "add", "multiply"]


def leak(rng, ops, runs, publics):
    """Sessions of one operation on one set of public inputs, with different secrets."""
    edge = [1, 2, 3, N - 1, N - 2, (N - 1) // 2, (N + 1) // 2, 2**255, 2**128, N >> 128, 16**63, int("11" * 32, 16)]
    out = []
    for op in ops:
        for p in range(publics):
            z, q = rng.getrandbits(256) % N, mul(rnz(rng))
            some = rng.sample(edge, len(edge))
            if op in ("ecdh", "multiply"):      # the last addition is of points with opposite y
                some[-5:] = [LAMBDA - 1, LAMBDA - 2, N - 1 - LAMBDA, LAMBDA * LAMBDA % N - 1, LAMBDA]
            ev = []

            def secret(j):
                if j < runs // 2 and some:
                    return some.pop()
                return rng.choice([rnz, rnz, rsc, lambda r: pat(r)])(rng) or 1

            def fe():
                return rng.choice([0, 1, P - 1, P - 2, 2**255, rng.randrange(P), rng.randrange(P), pat(rng, P)])
            carries = list(low.carries()) if op == "product" else []
            for j in range(2 * runs if op == "product" else runs):
                k, t = secret(j), secret(runs)
                if j >= runs // 2 and j & 1 and op in ("sign_raw", "secret_key", "scalar"):
                    t = [1, N - 1, 2, 0 if op == "scalar" else 3][j // 2 % 4]
                flag = j & 1
                v = [k, t, flag, z, 0]
                if op == "secret_key" and j % 4 == 3:      # the product of the two is 1
                    v[1] = inv(k, N)
                if op in ("ecdh", "multiply"):
                    v[3:] = q
                elif op == "product":
                    v[:2] = rng.choice(carries)
                elif op == "secret_key" and (k * v[1] * v[1] + 1) % N == 0:
                    v[1] = 5
                elif op in ("field", "cmov"):
                    v[:2] = fe(), fe()
                    if op == "field" and j % 2:     # x + y just below, at or above p
                        v[1] = (P - v[0] + rng.choice([0, 0, 1, 2**32 + 976, rng.getrandbits(32), -1, -2])) % P
                elif op == "add":
                    one = [lambda: q, lambda: neg(q), lambda: beta(q), lambda: neg(beta(q)),
                           lambda: neg(beta(beta(q)))] if j % 2 else [lambda: mul(k), lambda: mul(rnz(rng))]
                    v = list(rng.choice(one)()) + [rng.choice([1, 1, 0, fe(), fe()])] + list(q)
                elif op == "group":
                    v[:3] = list(mul(k)) + [fe() or 1]
                ev.append({"op": op, "a": {"v": [h(x) for x in v]}})
            out.append({"id": f"{op}/{p}", "ev": ev})
    return out


def leak_controls(rng):
    return [{"id": op, "ev": [{"op": op, "a": {"v": [h(x), h(0), h(0), h(0), h(0)]}} for x in (1, 2, 3, 2, 1, 77)]}
            for op in ("control_branch", "control_lookup")]
