"""Finds pairs of scalars whose product makes the rarest carry of the first
fold of a 512-bit product by 2^256 - n happen: a high word is added to a column
whose middle accumulator word is all ones, and the lower one overflows (one
product in 2^40 or so, and only when four high words are nearly all ones).
Prints pairs "a b" (hex), for gen/carries.txt. Inputs only."""
import random
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
W, TOP = 2**32, 2**64
NC = [(2**256 - N) >> 32 * i & W - 1 for i in range(4)]


def wraps(p):
    """The columns k in which the carry happens for the product p."""
    l = [p >> 32 * i & W - 1 for i in range(16)]
    n, c, out = l[8:], 0, []
    for k in range(12):
        if k < 8:
            c += l[k]
        c += sum(n[i] * NC[k - i] for i in range(8) if 0 <= k - i < 4)
        if k >= 4:
            if c % W + n[k - 4] >= W and c // W % W == W - 1:
                out.append(k)
            c += n[k - 4]
        c >>= 32
    return out


random.seed(1)
for k in range(4, 8):
    found = 0
    while found < 2:
        n = [random.choice([random.getrandbits(32), W - 1]) for _ in range(8)]
        n[7] |= 0xffff0000 if k < 7 else 0
        low = 0.01 if k < 7 else 0.0005
        for i in range(k - 3, k + 1):
            n[i] = W - 1 - int(W * random.random() * low)
        n[k - 4] |= 0xff000000
        # solve one of the four for the column, leaving room for what comes from below
        i = random.randrange(k - 3, min(k + 1, 7))
        rest = sum(n[j] * NC[k - j] for j in range(k - 3, k + 1) if j != i)
        n[i] = (TOP - W // 2 - 2**33 * random.randrange(0, 3) - rest) // NC[k - i]
        if not 0 <= n[i] < W:
            continue
        want = sum(x << 32 * j for j, x in enumerate(n))
        for _ in range(400):
            a = N - 1 - random.getrandbits(40)
            b = (want * 2**256 + random.getrandbits(256)) // a
            if b < N and k in wraps(a * b):
                print("%064x %064x" % (a, b))
                found += 1
                break
