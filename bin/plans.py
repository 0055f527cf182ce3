"""The symbolic jobs of every property: which harness, with which concrete parameters and which
symbolic bits. A job is a dict: e entry, p parameters, o executor options, need reach ids that must
be reached (else the job says nothing), s seconds."""
import math, random, struct

ECC = [
    [7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28],
    [13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
]
BLK = [
    [1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25],
    [1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49],
    [1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68],
    [1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81],
]
LBITS = [1, 0, 3, 2]
TAB = "support_tab=1 merge=0"
MRG = "support_tab=0 merge=1"


def total(v):
    """codewords of a version"""
    n = 4 * v + 17
    r = (16 * v + 128) * v + 64
    if v >= 2:
        a = v // 7 + 2
        r -= (25 * a - 10) * a - 55
        if v >= 7:
            r -= 36
    return r // 8


def data(v, l):
    return total(v) - ECC[l][v - 1] * BLK[l][v - 1]


def cls(v):
    return 0 if v < 10 else 1 if v < 27 else 2


NUMB, ALB, BYB = [10, 12, 14], [9, 11, 13], [8, 16, 16]


def bytecap(v, l):
    return (data(v, l) * 8 - 4 - BYB[cls(v)]) // 8


def blocks(v, l):
    """lengths of the blocks (data, ecc)"""
    nb, e, t = BLK[l][v - 1], ECC[l][v - 1], total(v)
    short = nb - t % nb
    return [(t // nb - e + (i >= short), e) for i in range(nb)]


def cap(v, l):
    p = {(1, 0): 3, (1, 1): 2, (1, 2): 1, (1, 3): 1, (2, 0): 2, (3, 0): 1}.get((v, l), 0)
    return (ECC[l][v - 1] - p) // 2


def J(e, p, o, need=(1,), s=60, **k):
    return dict(e=e, p=[int(x) for x in p], o=o, need=list(need), s=s, **k)


def combos(r, n=None):
    """every version and level, in random order"""
    c = [(v, l) for v in range(1, 41) for l in range(4)]
    r.shuffle(c)
    return c if n is None else c[:n]


def bitmask(r, n, w=8):
    m = 0
    for x in r.sample(range(w), n):
        m |= 1 << x
    return m


# ---------------------------------------------------------------- C01

def c01(r, deep):
    js = []
    small = [(v, l) for v in range(1, 8) for l in range(4)]
    for i, (v, l) in enumerate(small):
        js.append(J("h_clean", [v, l, (i * 3 + l) % 8, 0, 0, r.randrange(1000)], MRG))
    for i, (v, l) in enumerate(combos(r)):
        c = bytecap(v, l)
        n = [0, 0, c - 1, r.randrange(1, c + 1), 1][i % 5]
        js.append(J("h_clean", [v, l, i % 8, n, r.choice([1, 2]), r.randrange(1000)], TAB))
    for i, v in enumerate(list(range(8, 21))):
        js.append(J("h_clean", [v, r.randrange(4), r.randrange(8), 0, 0, 1], MRG, s=120))
    big = list(range(21, 41))
    r.shuffle(big)
    if not deep:
        js.append(J("h_clean", [big[0], 3, r.randrange(8), 0, 0, 1], MRG, s=120))
        return js
    for v, l in combos(r):
        js.append(J("h_clean", [v, l, r.randrange(8), r.choice([0, 0, 0, max(1, bytecap(v, l) - 2)]), 0, 1], MRG, s=400))
    for i in range(2000):
        v, l = r.randrange(1, 41), r.randrange(4)
        js.append(J("h_clean", [v, l, r.randrange(8), r.randrange(bytecap(v, l) + 1), r.choice([1, 2, 2]), i], TAB))
    return js


# ---------------------------------------------------------------- C02

def words():
    w = []
    for l in range(4):
        for m in range(8):
            d = LBITS[l] << 3 | m
            rem = d
            for _ in range(10):
                rem = (rem << 1) ^ ((rem >> 9) * 0x537)
            w.append((d << 10 | rem) ^ 0x5412)
    return w


WORDS = words()


def far(w):
    return min(bin(w ^ x).count("1") for x in WORDS) > 3


def flips(w):
    """a flip pattern (bit i: module i of the copy, 0 the most significant) as its effect on the word"""
    return sum(1 << (14 - i) for i in range(15) if w >> i & 1)


def farbase(r, l, m, free):
    """flips outside the mask `free` so that many completions are far from every word"""
    w0 = WORDS[4 * 0 + 0] if False else WORDS[l * 8 + m]
    while True:
        f = r.randrange(1 << 15) & ~free
        n = 0
        for _ in range(40):
            g = f | (r.randrange(1 << 15) & free)
            n += far(w0 ^ flips(g))
        if n >= 4:
            return f


def c02(r, deep):
    js = []
    T = TAB
    lm = [(l, m) for l in range(4) for m in range(8)]
    r.shuffle(lm)
    vs = list(range(2, 41))
    r.shuffle(vs)
    for i, (l, m) in enumerate(lm):
        # first copy: every pattern of at most 3 flips; second copy anything at all
        js.append(J("h_format", [1, l, m, 0, r.randrange(99), i % 2], T, need=[2 if i % 2 else 1]))
    for i, (l, m) in enumerate(lm * 2):
        v = vs[i % len(vs)] if i % 3 else r.choice([1, 1, 2, 3])
        free2 = bitmask(r, 5 if v < 5 else 3, 15)
        f1 = bitmask(r, 4 if v < 5 else 2 if v < 25 else 1, 15)
        # first copy beyond repair (4 of its modules symbolic), second with up to three flips among 5
        js.append(J("h_format", [v, l, m, 1, r.randrange(99), i % 2, f1, farbase(r, l, m, f1), free2, 0], T, need=[2 if i % 2 else 1]))
    for i, (l, m) in enumerate(lm):
        f1, f2 = bitmask(r, 5, 15), bitmask(r, 5, 15)
        js.append(J("h_format", [1, l, m, 2, r.randrange(99), i % 2, f1, farbase(r, l, m, f1), f2, farbase(r, l, m, f2)], T, need=[2 if i % 2 else 1]))
    for i, v in enumerate(vs):
        l, m = lm[(i * 7) % 32]
        js.append(J("h_format", [v, l, m, 0, r.randrange(99), 0, bitmask(r, 7 if v < 20 else 5, 15), 0, 0, 0], T))
    for (l, m) in lm[:2]:
        f1 = bitmask(r, 2, 15)
        js.append(J("h_format", [1, l, m, 1, r.randrange(99), 0, f1, farbase(r, l, m, f1), 0, 0], T, s=120))
    if deep:
        for i in range(3000):
            l, m = lm[i % 32]
            f1 = bitmask(r, 8, 15)
            f2 = bitmask(r, 7, 15)
            js.append(J("h_format", [1, l, m, 1, r.randrange(99), i % 2, f1, farbase(r, l, m, f1), f2, bitmask(r, r.randrange(3), 15) & ~f2], T, s=300))
            js.append(J("h_format", [1, l, m, 2, r.randrange(99), i % 2, f1, farbase(r, l, m, f1), f2, farbase(r, l, m, f2)], T, s=300))
    return js


# ---------------------------------------------------------------- C03 C04 C05 C06: damaged codewords

def damage(r, v, l, what, parts, sel=None):
    """parts: list of (block, position, symbolic mask, fixed)"""
    p = [v, l, r.randrange(8), r.randrange(1000), what, len(parts)]
    for x in parts:
        p += list(x)
    if sel:
        p += list(sel)
    return p


def fixed(r):
    return r.randrange(1, 256)


def spread(r, v, l, count, nb=1, bits=5, nsym=1):
    """`count` damaged codewords in each of nb blocks; nsym of all of them with `bits` symbolic bits
    (their damage may be zero)"""
    bl = blocks(v, l)
    bs = r.sample(range(len(bl)), min(nb, len(bl)))
    parts = []
    for b in bs:
        n = sum(bl[b])
        pos = r.sample(range(n), min(count, n))
        # edges often: first and last codewords
        if r.randrange(3) == 0 and 0 not in pos:
            pos[0] = 0
        if r.randrange(3) == 0 and n - 1 not in pos:
            pos[-1] = n - 1
        parts += [(b, q, 0, fixed(r)) for q in pos]
    idx = r.sample(range(len(parts)), min(nsym, len(parts)))
    for i in idx:
        m = bitmask(r, bits)
        parts[i] = (parts[i][0], parts[i][1], m, parts[i][3] & ~m & 255 if r.randrange(2) else 0)
    return parts


def floating(r, v, l, b, lg, bits):
    """a damaged codeword at one of 2**lg places of block b"""
    n = sum(blocks(v, l)[b])
    m = bitmask(r, bits)
    return [lg, b, r.randrange(n), r.choice([1, 1, 2, 3, 5]), m, r.randrange(256) & ~m & 255]


def heavy(r, v, l, what, bits=4, lack=0):
    """every block damaged at capacity (one of them possibly less), many wrong bits each; the symbolic
    bits are in one codeword"""
    c = cap(v, l)
    parts = []
    for b, (d, e) in enumerate(blocks(v, l)):
        pos = r.sample(range(d + e), max(1, c - lack))
        parts += [(b, q, 0, 255 if r.randrange(3) else fixed(r)) for q in pos]
    i = r.randrange(len(parts))
    m = bitmask(r, bits)
    parts[i] = (parts[i][0], parts[i][1], m, parts[i][3] & ~m & 255)
    return J("h_damage", damage(r, v, l, what, parts), TAB, s=40)


def heavies(r, deep, what):
    js = [heavy(r, v, l, what) for v, l in [(40, 0), (40, 3), (40, 1), (40, 2)] + [(r.randrange(10, 40), i % 4) for i in range(8)]]
    return js + [heavy(r, r.randrange(3, 41), r.randrange(4), what, 5, r.randrange(3)) for i in range(100 if deep else 0)]


def c03(r, deep):
    js = heavies(r, deep, 3)
    for rep in range(1 if not deep else 12):
        for i, (v, l) in enumerate(combos(r)):
            c = cap(v, l)
            k = c if i % 3 else r.randrange(0, c + 1)
            nb = 1 if i % 4 else min(3, BLK[l][v - 1])
            js.append(J("h_damage", damage(r, v, l, 3, spread(r, v, l, max(1, k), nb, 5 if nb == 1 else 4)), TAB))
    for i in range(40 if not deep else 400):
        v, l = r.choice([(1, 0), (1, 1), (1, 2), (2, 0), (2, 3), (3, 1), (4, 2), (5, 3), (6, 1), (8, 2)])
        c = cap(v, l)
        # two and three fully symbolic places
        js.append(J("h_damage", damage(r, v, l, 3, spread(r, v, l, min(c, 2), 1, 6 if (v, l) == (1, 0) else 4, 2)), TAB))
    for i in range(40 if not deep else 400):
        v, l = combos(r, 1)[0]
        c = cap(v, l)
        parts = spread(r, v, l, max(1, min(c - 1, 3)), 1, 0, 0)
        js.append(J("h_damage", damage(r, v, l, 3, parts, floating(r, v, l, parts[0][0], 3, 3)), TAB))
    # single damaged codeword, any value at any of 8 places; the whole block with several jobs
    for v, l in [(1, 0), (1, 1), (1, 3), (2, 2)] + ([(3, 0), (4, 1), (5, 2), (7, 3)] if deep else []):
        n = sum(blocks(v, l)[0])
        for f in range(0, n, 8):
            js.append(J("h_damage", damage(r, v, l, 3, [], [3, 0, f, 1, 255, 0]), TAB))
    return js


def c04(r, deep):
    js = []
    for rep in range(1 if not deep else 10):
        for i, (v, l) in enumerate(combos(r)):
            c = cap(v, l)
            n = c + 1 + r.choice([0, 0, 1, 2, 3, c])
            bits = 5 if c < 12 else 4
            js.append(J("h_damage", damage(r, v, l, 4, spread(r, v, l, n, 1, bits)), TAB))
    for i in range(60 if not deep else 800):
        v, l = r.choice([(1, 0), (1, 1), (1, 2), (1, 3), (2, 0), (3, 0), (2, 1), (2, 2), (4, 1), (6, 3)])
        c = cap(v, l)
        js.append(J("h_damage", damage(r, v, l, 4, spread(r, v, l, c + r.choice([1, 1, 2]), 1, 4 if v < 3 else 3, 2)), TAB))
    # no damage to repair at all, then at capacity: never an error
    for i in range(20):
        v, l = combos(r, 1)[0]
        js.append(J("h_damage", damage(r, v, l, 4, spread(r, v, l, cap(v, l), 1, 4)), TAB))
    return js


def c05(r, deep):
    js = heavies(r, deep, 5)
    for rep in range(1 if not deep else 10):
        for i, (v, l) in enumerate(combos(r)):
            c = cap(v, l)
            k = [1, c, r.randrange(1, c + 1)][i % 3]
            nb = 1 if i % 2 else min(4, BLK[l][v - 1])
            js.append(J("h_damage", damage(r, v, l, 5, spread(r, v, l, k, nb, 5 if nb == 1 else 4)), TAB))
    for i in range(30 if not deep else 400):
        v, l = r.choice([(1, 0), (1, 1), (2, 3), (3, 1), (5, 3), (6, 1), (8, 2)])
        js.append(J("h_damage", damage(r, v, l, 5, spread(r, v, l, min(cap(v, l), 2), 1, 4, 2)), TAB))
        v, l = combos(r, 1)[0]
        js.append(J("h_damage", damage(r, v, l, 5, spread(r, v, l, 1, 1, 0, 0)[:0], floating(r, v, l, r.randrange(BLK[l][v - 1]), 3, 4)), TAB))
    return js


def area(r, n, w):
    return [r.randrange(n), r.randrange(n), w, w]


def c06(r, deep):
    js = heavies(r, deep, 6)
    for i in range(40 if not deep else 400):
        v, l = combos(r, 1)[0]
        c = cap(v, l)
        k = r.choice([1, c, c + 1, c + 2, c + 4])
        js.append(J("h_damage", damage(r, v, l, 6, spread(r, v, l, k, r.choice([1, 2]), 4)), TAB))
    for i in range(30 if not deep else 300):
        v, l, m = r.randrange(1, 41) if i % 2 else 1, r.randrange(4), r.randrange(8)
        f1, f2 = bitmask(r, 5 if v < 10 else 3, 15), bitmask(r, 4 if v < 10 else 2, 15)
        js.append(J("h_agree_format", [v, l, m, r.randrange(99), f1, f2, r.randrange(1 << 15) & ~f1, bitmask(r, r.randrange(5), 15) & ~f2], TAB))
    for i in range(60 if not deep else 600):
        v, l = (r.randrange(1, 12), r.randrange(4)) if i % 3 else combos(r, 1)[0]
        js.append(J("h_content", content(r, v, l, 5) + [], MRG if i % 2 else TAB, s=40, both=1))
    for j in js:
        if j.pop("both", 0):
            j["p"][6] = 1
    return js


# ---------------------------------------------------------------- C07 C08 C09: content

def c07(r, deep):
    js = []
    vs = [1, 5, 9, 10, 15, 26, 27, 33, 40]

    def seg(v, l, segs, tail=0, o=MRG, s=60):
        p = [v, l, r.randrange(8), r.randrange(1000) * 2 + (0 if tail == 2 else 1), tail, len(segs)]
        for x in segs:
            p += list(x)
        return J("h_segments", p, o, s=s)

    def bits(v, k, n):
        c = cls(v)
        if k == 1:
            return 4 + NUMB[c] + n // 3 * 10 + [0, 4, 7][n % 3]
        if k == 2:
            return 4 + ALB[c] + n // 2 * 11 + n % 2 * 6
        return 4 + BYB[c] + 8 * n

    # every digit / character symbolic, all short lengths
    for n in range(0, 11):
        js.append(seg(r.choice([1, 4, 9]), r.randrange(2), [(1, n, 0, n)]))
    for n in range(0, 8):
        js.append(seg(r.choice([1, 4, 9]), r.randrange(2), [(2, n, 0, n)]))
    # symbol exactly full, and full up to 1..11 bits
    for i in range(30 if not deep else 300):
        v, l = (r.choice(vs), r.randrange(4)) if i % 2 else (r.randrange(1, 41), r.randrange(4))
        room = data(v, l) * 8
        k = r.choice([1, 2])
        n = 0
        lo, hi = 0, 8000
        while lo < hi:
            mid = (lo + hi + 1) // 2
            if bits(v, k, mid) <= room:
                lo = mid
            else:
                hi = mid - 1
        n = max(0, lo - r.choice([0, 0, 1, 2, 3]))
        n = min(n, [1023, 4095, 16383][cls(v)] if k == 1 else [511, 2047, 8191][cls(v)])
        f = r.choice([0, max(0, n - 3), r.randrange(n)])
        js.append(seg(v, l, [(k, n, f, 2 if k == 1 else 1)], r.choice([0, 2]), TAB))
    # mixtures
    for i in range(40 if not deep else 500):
        v, l = (r.choice(vs), r.randrange(4))
        room = data(v, l) * 8
        segs, used = [], 0
        for _ in range(r.choice([2, 2, 3, 4])):
            k = r.choice([1, 2, 4])
            n = r.randrange(0, 12)
            if used + bits(v, k, n) > room:
                continue
            used += bits(v, k, n)
            segs.append([k, n, 0, 0])
        if not segs:
            continue
        q = r.choice(segs)
        q[2] = r.randrange(0, max(1, q[1]))
        o = r.choice([MRG, TAB])
        q[3] = min(q[1] - q[2], 3 if o == MRG else 2 if q[0] == 1 else 1)
        js.append(seg(v, l, segs, r.choice([0, 0, 2]), o))
    if deep:
        for n in range(8, 12):
            js.append(seg(9, 0, [(1, n + 2, 0, n + 2)], s=300))
            js.append(seg(9, 0, [(2, n, 0, n)], s=300))
    return js


def content(r, v, l, sb):
    """arbitrary data with about sb symbolic bits at an interesting place"""
    c = cls(v)
    fill = r.choice([0, 1, 1, 2])
    p = [v, l, r.randrange(8), r.randrange(1000), fill, 0, 0]
    kind = r.choice([1, 1, 2, 2, 4, 4, 0, r.randrange(16)])
    w = {1: NUMB[c], 2: ALB[c], 4: BYB[c]}.get(kind, 8)
    room = data(v, l) * 8
    patches = []
    t = r.randrange(5)
    if t == 0:
        # mode and part of the length
        patches.append((0, 4, 0, r.choice([15, 7])))
        patches.append((4, w, r.randrange(1 << min(w, 5)), bitmask(r, 2, min(w, 9))))
    elif t == 1:
        # length around what fits
        per = {1: 3, 2: 2, 4: 1}.get(kind, 1)
        grp = {1: 10, 2: 11, 4: 8}.get(kind, 8)
        n = max(0, (room - 4 - w) // grp * per + r.choice([-2, -1, 0, 1, 2, 3]))
        n = min(n, (1 << w) - 1)
        m = bitmask(r, 2, 3)
        patches.append((0, 4, kind, 0))
        patches.append((4, w, n & ~m, m))
    else:
        # value of a group in the middle or at the end
        per = {1: 3, 2: 2, 4: 1}.get(kind, 1)
        grp = {1: 10, 2: 11, 4: 8}.get(kind, 8)
        most = max(1, (room - 4 - w) // grp * per)
        n = min(r.choice([1, 2, 3, 4, 5, 6, r.randrange(1, most + 1)]), most, (1 << w) - 1)
        patches.append((0, 4, kind, 0))
        patches.append((4, w, n, 0))
        g = r.randrange(0, max(1, -(-n // per)))
        if n % per and r.randrange(2):
            g = n // per
        left = n - g * per
        gw = {1: [4, 4, 7, 10], 2: [6, 6, 11]}.get(kind, [8, 8])
        gw = gw[min(left, len(gw) - 1)]
        lim = {10: 1000, 7: 100, 4: 10, 11: 2025, 6: 45}.get(gw, 256)
        m = bitmask(r, min(sb, gw), gw)
        val = r.choice([lim - 1, lim, lim + 1, r.randrange(1 << gw)]) & ((1 << gw) - 1) & ~m
        patches.append((4 + w + g * grp, gw, val, m))
        # make the other groups valid half of the time
        if r.randrange(2) and n < 60:
            for h in range(0, -(-n // per)):
                if h == g:
                    continue
                left2 = n - h * per
                gw2 = {1: [4, 4, 7, 10], 2: [6, 6, 11]}.get(kind, [8, 8])
                gw2 = gw2[min(left2, len(gw2) - 1)]
                lim2 = {10: 1000, 7: 100, 4: 10, 11: 2025, 6: 45}.get(gw2, 128)
                patches.append((4 + w + h * grp, gw2, r.randrange(lim2), 0))
            tailpos = 4 + w + sum([grp] * (n // per)) + ({1: [0, 4, 7], 2: [0, 6]}.get(kind, [0])[n % per] if n % per else 0)
            if tailpos + 4 <= room:
                patches.append((tailpos, 4, r.choice([0, 0, 1, 2, 4, 3, 7, 8]), 0))
    p[5] = len(patches)
    for q in patches:
        p += list(q)
    return p


def c08(r, deep):
    js = []
    # every value of a group, exactly: 3, 2 and 1 digits, pair and single character
    for v, l in [(1, 0), (1, 3), (10, 1), (27, 2)] if not deep else [(v, r.randrange(4)) for v in (1, 2, 5, 9, 10, 18, 26, 27, 34, 40)]:
        c = cls(v)
        for kind, n, gw in [(1, 3, 10), (1, 2, 7), (1, 1, 4), (2, 2, 11), (2, 1, 6), (1, 4, 10), (1, 5, 10), (2, 3, 11), (1, 6, 10)]:
            w = NUMB[c] if kind == 1 else ALB[c]
            js.append(J("h_content", [v, l, r.randrange(8), r.randrange(99), r.choice([0, 2]), 3, 0, 0, 4, kind, 0, 4, w, n, 0, 4 + w, gw, 0, (1 << gw) - 1], MRG, s=60))
            # tail group
            if n > (3 if kind == 1 else 2):
                first = 10 if kind == 1 else 11
                tw = {(1, 4): 4, (1, 5): 7, (1, 6): 10, (2, 3): 6}[(kind, n)]
                js.append(J("h_content", [v, l, r.randrange(8), r.randrange(99), r.choice([0, 2]), 4, 0, 0, 4, kind, 0, 4, w, n, 0, 4 + w, first, 7, 0, 4 + w + first, tw, 0, (1 << tw) - 1], MRG, s=60))
    # every mode, every low length bit
    for v in (1, 9):
        js.append(J("h_content", [v, 0, r.randrange(8), 1, r.randrange(3), 1, 0, 0, 12, 0, 0xf1f], MRG, s=100))
    for v in (1, 10, 27):
        js.append(J("h_content", [v, r.randrange(4), r.randrange(8), 1, 1, 1, 0, 0, 4, 0, 15], MRG, s=60))
    for i in range(160 if not deep else 2500):
        v, l = (r.randrange(1, 12), r.randrange(4)) if i % 3 else combos(r, 1)[0]
        js.append(J("h_content", content(r, v, l, 5), MRG if i % 2 else TAB, s=40))
    return js


def c09(r, deep):
    js = []

    def cs(v, l, n, sy, o=MRG):
        p = [v, l, r.randrange(8), r.randrange(1000), n, len(sy)]
        for x in sy:
            p += list(x)
        return J("h_charset", p, o)
    # one and two fully symbolic bytes, next to nothing / 0xC3 / lead bytes
    for n in (1, 2, 5, 14):
        for i in range(n):
            js.append(cs(1, 0, n, [(i, 255, 0)]))
    for i in range(20):
        n = r.randrange(2, 15)
        a, b = r.sample(range(n), 2)
        js.append(cs(r.randrange(1, 3), 0, n, [(a, 255, 0), (b, 255, 0)]))
    for a in (0xc3, 0xc2, 0xe2, 0xf0, 0xed, 0xe0, 0xf4, 0x80, 0xbf, 0xff, 0xc0):
        n = r.randrange(4, 12)
        i = r.randrange(0, n - 2)
        # 0xC3 elsewhere makes it UTF-8; then a sequence with symbolic followers
        js.append(cs(1, 0, n, [(i, 0, a), (i + 1, 255, 0)]))
        js.append(cs(2, 1, n + 6, [(i, 0, a), (i + 1, 255, 0), (i + 2, 0xc0, r.randrange(64)), (n + 3, 0, 0xc3), (n + 4, 0xc0, 0x29)]))
        js.append(cs(3, 0, n + 8, [(i, 0, a), (i + 1, 0xff, 0), (i + 2, 0x3f, 0x80), (n + 3, 0, 0xc3), (n + 4, 0, 0xa9)]))
    for i in range(40 if not deep else 800):
        v, l = combos(r, 1)[0]
        c = bytecap(v, l)
        n = r.choice([c, r.randrange(2, min(c, 200) + 1)])
        a = r.randrange(n - 1)
        js.append(cs(v, l, n, [(a, 255 if v < 3 else 0xf7, 0), (a + 1, r.choice([0, 0xc0, 0xf0]) if v < 3 else 0x80, r.randrange(16))] if i % 2 else [(a, 255, 0)], TAB if n > 60 else MRG))
    if deep:
        for i in range(100):
            n = r.randrange(3, 15)
            js.append(cs(1, 0, n, [(x, 255, 0) for x in r.sample(range(n), 3)]))
    return js


# ---------------------------------------------------------------- C10 C11 C12 C23

def c10(r, deep):
    js = [J("h_upstream", [n, i], MRG) for n in (0, 1, 20, 80) for i in (0, 1)]
    for v in (0, 41, 42, 100, 300):
        for b in (0, 1):
            n = 4 * v + 17
            js.append(J("h_grid", [v, 1, r.randrange(3), b, 2, 0, 0, 8, 6, 1, 8, 0, 1, 4], TAB))
    for v in range(1, 41):
        n = 4 * v + 17
        k = r.choice([0, 1, 2, 2, 3, 3])
        b = r.randrange(2)
        # format area and data
        x, y = r.randrange(n - 3), r.randrange(n - 3)
        js.append(J("h_grid", [v, r.randrange(1000), k, b, 2, r.randrange(4), r.randrange(4), 8, 3, 1, x, y, 2, 2], TAB, s=40))
    for i in range(60 if not deep else 1000):
        v = r.randrange(1, 8) if i % 3 else r.randrange(1, 41)
        n = 4 * v + 17
        k = r.choice([2, 3, 3])
        x, y = r.choice([(n - 4, n - 4), (n - 2, r.randrange(n - 4)), (r.randrange(9, n - 4), r.randrange(9, n - 4))])
        js.append(J("h_grid", [v, r.randrange(1000), k, r.randrange(2), 1, r.randrange(4), x, y, 3, 3 if i % 2 else 2], TAB, s=40))
    for i in range(30 if not deep else 300):
        v = r.randrange(1, 10)
        js.append(J("h_content", content(r, v, r.randrange(4), 5), TAB, s=40))
    return js


def c11(r, deep):
    js = []
    for kinds in range(3):
        js.append(J("h_chomp", [3, 1, kinds, 255, 0], TAB0))
        js.append(J("h_chomp", [1, 2, kinds | kinds << 2, 255, 0], TAB0))
    js.append(J("h_chomp", [0, 1, 0, 255, 0], TAB0, need=[1]))
    for kinds in ([0, 0], [0, 2], [2, 0], [2, 2], [1, 2], [2, 1], [0, 1], [1, 1]):
        js.append(J("h_chomp", [3, 2, kinds[0] | kinds[1] << 2, 255, 0], TAB0))
        js.append(J("h_chomp", [2, 2, kinds[0] | kinds[1] << 2, 255, 0], TAB0))
    for i in range(6 if not deep else 60):
        k = [r.randrange(3) for _ in range(3)]
        js.append(J("h_chomp", [r.choice([2, 3]), 3, k[0] | k[1] << 2 | k[2] << 4, 15 if 2 not in k else 31, 0], TAB0, s=100))
    for i in range(24 if not deep else 300):
        pre = [r.randrange(1, 9) for _ in range(r.randrange(1, 7))]
        n = -(-sum(pre) // 8) + r.randrange(0, 3)
        kk = [r.randrange(3) for _ in range(2)]
        js.append(J("h_chomp", [n, 2, kk[0] | kk[1] << 2, 31, len(pre)] + pre, TAB0, need=[1], s=100))
    if deep:
        for i in range(20):
            kk = [r.randrange(3) for _ in range(4)]
            js.append(J("h_chomp", [3, 4, sum(x << 2 * i for i, x in enumerate(kk)), 15, 0], TAB0, s=900))
    return js


TAB0 = "support_tab=0 merge=0"


def c12(r, deep):
    js = [J("h_index", [v, 0, 0, 0], MRG, s=60) for v in list(range(0, 46)) + [60, 61, 100, 145]]
    js += [J("h_index", [v, 30, v, 1], MRG, need=[2]) for v in (1, 2, 3)]
    # grids of more than 2**16, 2**17 and 2**20 modules
    js += [J("h_index", [v, 200, v, 0], MRG, s=60) for v in (9, 15, 30, 59, 60, 61, 84, 100, 145, 255, 256, 260)]
    if deep:
        js += [J("h_index", [v, 0, 0, 0], MRG) for v in range(0, 100)]
        js += [J("h_index", [v, 3000, v, 0], MRG, s=200) for v in (300, 400, 500, 511, 512, 600)]
        js += [J("h_index", [v, 200, v * 7 + i, 1], MRG, need=[2]) for v in (1, 2, 3) for i in range(20)]
    return js


def c23(r, deep):
    return [J("h_point", [i], MRG) for i in range(8)]


# ---------------------------------------------------------------- C13 C14: binarisation

def prep_size(r, small=False):
    m = 14 if small else 24
    return r.choice([(r.randrange(1, m), r.randrange(1, m)), (r.randrange(1, m), r.randrange(1, m)), (1, r.randrange(1, m)), (r.randrange(1, m), 1), (r.choice([5, 10, 15, 20]), r.choice([5, 10, 15]))])


def prep_blocks(r):
    return r.choice([(5, 7), (5, 7), (r.randrange(1, 10), r.randrange(1, 10)), (r.choice([1, 2, 3]), r.choice([1, 2, 3, 4, 5])), (r.choice([1, 4, 8, 16, 40]), r.choice([1, 2, 3, 7, 9, 30]))])


def c13(r, deep):
    js = []
    # empty images, images of one row or column, and small ones: block sizes symbolic (32 at a time)
    for w, h in [(0, 0), (0, 1), (0, 5), (5, 0), (1, 0), (1, 1), (1, 7), (7, 1), (3, 3), (4, 5), (5, 4), (6, 6), (9, 2), (2, 9), (11, 7), (8, 13), (16, 16)]:
        js.append(J("h_prep", [w, h, 1, 1, r.randrange(999), r.randrange(8), 2, 0 if w * h == 0 else 1, 0, 0, 7 | 7 << 5], TAB, need=[1]))
        js.append(J("h_prep", [w, h, 5, 1, r.randrange(999), r.randrange(8), 1, 3, 0, 0, 15 << 5], TAB, need=[1]))
    for i in range(20):
        w, h = prep_size(r)
        js.append(J("h_prep", [w, h, r.choice([1, 5]), 1, r.randrange(999), r.randrange(8), 0, 0, 0, 0, r.choice([31, 31 << 5, 3 | 7 << 5])], TAB, need=[1]))
    for i in range(60 if not deep else 600):
        w, h = prep_size(r)
        b, m = prep_blocks(r)
        js.append(J("h_prep", [w, h, b, m, r.randrange(999), 0, 0, 255, 0, 0, 0], MRG, need=[1]))
    for i in range(10 if not deep else 100):
        w, h = r.randrange(30, 300), r.randrange(30, 300)
        b, m = prep_blocks(r)
        js.append(J("h_prep", [w, h, b, m, r.randrange(999), r.randrange(8), 6, 255, 0, 0, 0], MRG, need=[1]))
    # very large block sizes and block mean sizes
    for b, m in [(1, 2 ** 32 - 1), (2 ** 32 - 1, 1), (2 ** 31, 2 ** 31), (2 ** 32 - 1, 2 ** 32 - 1), (3, 2 ** 31 + 1), (1000, 7)]:
        js.append(J("h_prep", [r.randrange(1, 9), r.randrange(1, 9), b, m, 5, 0, 0, 255, 0, 0, 0], MRG, need=[1]))
    return js


def c14(r, deep):
    js = []
    for i in range(60 if not deep else 600):
        w, h = r.randrange(10, 120), r.randrange(10, 120)
        b, m = prep_blocks(r)
        if m > 9 and b < 9:
            w, h = w // 4, h // 4
        style = r.choice([0, 1, 2, 3, 3, 4, 4, 6, 7])
        js.append(J("h_prep", [w, h, b, m, r.randrange(999), style, r.choice([1, 2, 4]), 255, 0, 1, 0], MRG, need=[2], s=15))
    # blocks of many pixels (sums beyond 16 bits), few blocks of a large neighbourhood
    for i in range(12 if not deep else 120):
        b, m = r.choice([(17, 3), (20, 7), (33, 5), (40, 3), (64, 7), (100, 9), (24, 30), (90, 1)])
        w, h = r.randrange(b, min(3 * b, 110) + 9), r.randrange(b, min(3 * b, 110) + 9)
        js.append(J("h_prep", [w, h, b, m, r.randrange(999), r.choice([0, 1, 1, 3, 6, 6]), r.choice([1, 2]), 255, 0, 1, 0], MRG, need=[2], s=15))
    for i in range(40 if not deep else 400):
        # colours: some bits of one channel of some pixels
        w, h = prep_size(r)
        b, m = prep_blocks(r)
        js.append(J("h_prep", [w, h, b, m, r.randrange(999), 7, r.choice([1, 2, 3]), bitmask(r, 4), r.randrange(1, 5), 1, 0], TAB, need=[2]))
    for i in range(30 if not deep else 300):
        # all sizes of blocks, near the limits of 5 and 250
        w, h = prep_size(r)
        js.append(J("h_prep", [w, h, 1, 1, r.randrange(999), r.choice([1, 2, 3, 4]), 2, 7, 0, 1, 7 | 7 << 5], TAB, need=[2]))
    for i in range(150 if not deep else 1500):
        w, h = prep_size(r, i % 3 > 0)
        b, m = prep_blocks(r)
        if (i % 5) == 0:
            b, m = 5, 7
        # every pixel fully symbolic
        js.append(J("h_prep", [w, h, b, m, r.randrange(999), 0, 0, 255, 0, 1, 0], MRG, need=[2], s=15))
    for i in range(6 if not deep else 60):
        js.append(J("h_prep", [r.choice([26, 30, 37]), r.choice([25, 28, 30]), 5, 7, r.randrange(999), 0, 0, 255, 0, 1, 0], MRG, need=[2], s=90))
    return js


# ---------------------------------------------------------------- C15 C16 C17 C18 C21: pictures

def bits(x):
    return struct.unpack("<Q", struct.pack("<d", float(x)))[0]


def margin(r, s):
    m = r.choice([[0] * 4, [4 * s] * 4, [r.randrange(0, 30) for _ in range(4)], [r.choice([0, 1, 2, s, 2 * s]) for _ in range(4)], [0, 0, 4 * s, 4 * s], [5 * s, 3 * s, 0, 0]])
    return sum(x << 8 * k for k, x in enumerate(m))


def c15(r, deep):
    js = []
    # every version, all turns
    for v in range(1, 41):
        for t in (range(4) if deep or v < 8 else [r.randrange(4)]):
            s = r.choice([2, 3] if v > 6 else [2, 3, 4, 5, 7])
            js.append(J("h_locate", [v, r.randrange(4), r.randrange(8), s, margin(r, s), t, r.randrange(10 ** 6), 2 if v < 20 else 1], TAB, s=60))
    # scales
    for s in range(2, 17):
        v = r.choice([1, 1, 2, 3]) if s > 6 else r.randrange(1, 8)
        js.append(J("h_locate", [v, r.randrange(4), r.randrange(8), s, margin(r, s), r.randrange(4), r.randrange(10 ** 6), 2], TAB, s=60))
    for i in range(60 if not deep else 1500):
        v = r.randrange(1, 8) if i % 4 else r.randrange(1, 41)
        s = r.choice([2, 3, 4, 5, 6, 8]) if v < 8 else r.choice([2, 2, 3])
        js.append(J("h_locate", [v, r.randrange(4), r.randrange(8), s, margin(r, s), r.randrange(4), r.randrange(10 ** 6), r.choice([3, 4, 5, 6]) if v < 5 else 2], TAB, s=60))
    for i in range(6 if not deep else 60):
        js.append(J("h_locate", [r.randrange(1, 4), r.randrange(4), r.randrange(8), r.choice([2, 3]), margin(r, 2), r.randrange(4), r.randrange(10 ** 6), 8], TAB, s=60))
    # contents with large areas of one colour between the finders
    for i in range(60 if not deep else 600):
        v = r.choice([2, 2, 3, 4, 5, 6, 7, 10, 13])
        s = r.choice([2, 2, 3, 4]) if v < 7 else 2
        js.append(J("h_locate", [v, r.randrange(4), r.randrange(8), s, margin(r, s), r.randrange(4), r.randrange(10 ** 6), r.choice([1, 2, 3]), 1 + i % 6], TAB, s=60))
    return js


def c16(r, deep):
    js = []
    # every pixel symbolic
    for w, h in [(0, 0), (0, 3), (3, 0), (1, 1), (1, 13), (13, 1), (7, 1), (8, 1), (9, 1), (10, 1), (12, 1), (7, 2), (2, 7), (3, 4), (4, 3), (13, 1), (6, 2)] + ([(16, 1), (8, 2), (5, 3), (1, 16)] if deep else []):
        js.append(J("h_scan", [w, h, 0, 1, 0, 0], TAB, need=[1], s=100))

    def rects(w, h, near, n, m):
        out = [n]
        for _ in range(n):
            x, y, a, b = r.choice(near)
            s = r.choice([1, 1, m, m, 2 * m])
            out += [max(0, min(w, x + r.randrange(-s, a + s))), max(0, min(h, y + r.randrange(-s, b + s))), r.choice([1, s, a]), r.choice([1, s, b, 1])]
        return out

    def job(deepn):
        s = r.choice([1, 1, 2, 2, 3, 4, 6])
        d = r.choice([14, 18, 22, r.randrange(8, 60)]) * s
        if d > 150:
            d = 150
        ox, oy = r.choice([(0, 0), (4 * s, 4 * s), (r.randrange(20), r.randrange(20))])
        t = r.choice([0, 0, 0, r.uniform(-.1, .1), r.uniform(-.8, .8)])
        import math
        k = r.choice([1, 1, 1, r.uniform(.8, 1.2)])
        pts = [(0, 0), (d * math.cos(t), d * math.sin(t)), (-d * k * math.sin(t), d * k * math.cos(t))]
        nf = r.choice([3, 3, 3, 4, 2, 1])
        while len(pts) < nf:
            pts.append((d * r.choice([1, 2, .5]), d * r.choice([1, 2, -1])))
        pts = pts[:nf]
        mx, my = min(p[0] for p in pts), min(p[1] for p in pts)
        f = []
        near = []
        for x, y in pts:
            sx, sy = (s, s) if r.random() < .75 else (max(1, s + r.choice([-1, 0, 1])), max(1, s + r.choice([-1, 0, 1])))
            x, y = int(round(x - mx)) + ox, int(round(y - my)) + oy
            f += [x, y, sx, sy, int(r.random() < .08)]
            near.append((x, y, 7 * sx, 7 * sy))
        w = max(n[0] + n[2] for n in near) + r.choice([0, 0, 1, 4 * s, -s])
        h = max(n[1] + n[3] for n in near) + r.choice([0, 0, 1, 4 * s, -s])
        w, h = max(1, w), max(1, h)
        return J("h_scan", [w, h, r.choice([0, 0, 0, 1, 3, 5, 6, 6]), r.randrange(10 ** 6), nf] + f + rects(w, h, near, r.choice([4, 5, 6, 7]) + deepn, s), TAB, s=60)
    for i in range(150 if not deep else 3000):
        js.append(job(0 if not deep else r.choice([0, 0, 2])))
    for i in range(30 if not deep else 500):
        w, h = r.randrange(1, 60), r.randrange(1, 60)
        js.append(J("h_scan", [w, h, r.choice([2, 3, 5, 5, 6]), r.randrange(10 ** 6), 0] + rects(w, h, [(0, 0, w, h)], 6, 2), TAB, s=60))
    return js


def c17(r, deep):
    js = []
    for v in range(1, 41):
        for t in (range(4) if v < 8 or deep else [r.randrange(4)]):
            for half in (0, 1):
                s = r.choice([2, 3] if v > 12 else [2, 3, 4, 5, 7])
                js.append(J("h_extract", [v, r.randrange(4), r.randrange(8), s, margin(r, s), t, half, r.randrange(10 ** 6), 0], MRG))
    for s in range(2, 18):
        v = r.randrange(1, 12)
        js.append(J("h_extract", [v, r.randrange(4), r.randrange(8), s, margin(r, s), r.randrange(4), s % 2, r.randrange(10 ** 6), 0], MRG))
    for i in range(40 if not deep else 1500):
        v = r.randrange(1, 41)
        s = r.randrange(2, 4) if v > 20 else r.randrange(2, 9)
        js.append(J("h_extract", [v, r.randrange(4), r.randrange(8), s, margin(r, s), r.randrange(4), r.randrange(2), r.randrange(10 ** 6), 0], MRG))
    return js


def bars(r, n, sc, w, h):
    """black or white bars that run from somewhere around the bottom right alignment pattern (or
    from a finder) to an edge"""
    out = []
    for i in range(r.choice([1, 1, 2])):
        a = (n - 6.5) * sc
        x, y = [max(0, int(a + r.choice([0, 0, .5, -.5, 1, -1, 1.5, -1.5]) * sc) - r.randrange(2)) for _ in range(2)]
        t, v = r.choice([1, 2, sc, 2 * sc]), r.choice([0, 0, 0, 255])
        d = r.randrange(4)
        if d == 0:
            out.append([x, y, max(w, 1), t, v])
        elif d == 1:
            out.append([x, y, t, max(h, 1), v])
        elif d == 2:
            out.append([0, y, x + 1, t, v])
        else:
            out.append([x, 0, t, y + 1, v])
    return [len(out)] + [k for b in out for k in b]


def c18(r, deep):
    js = []
    for i in range(800 if not deep else 6000):
        v = r.choice([1, 1, 1, 2, 2, 3, 4, 7, r.randrange(0, 41), r.randrange(0, 1001) if i % 9 == 0 else 2])
        n = 4 * v + 17
        sc = r.choice([1, 2, 2, 3]) if v < 10 else r.choice([1, 2])
        if v > 40:
            w, h, st = r.randrange(1, 60), r.randrange(1, 60), r.randrange(7)
        else:
            w, h = [max(0, n * sc + r.choice([0, 0, 0, -1, -5, 3, 20, r.randrange(-n * sc, 10)])) for _ in range(2)]
            if r.random() < .1:
                w, h = r.choice([(0, 0), (1, 1), (5, 0), (0, 5), (1, 40), (40, 1), (7, 7)])
            st = r.choice([0, 1, 2, 3, 4, 4, 5, 6, 9 + sc, 9 + sc, 9 + sc])
        d = (n - 7) * sc
        o = 3.5 * sc - r.choice([0, .5])
        c = [o, o, o + d, o, o, o + d]
        t = r.randrange(6)
        if t == 1:
            c = [o + d, o, o + d, o + d, o, o]
        if t == 2:
            c = [o + d, o + d, o, o + d, o + d, o]
        if t == 3:
            c = [o, o + d, o, o, o + d, o + d]
        if t == 4:
            c = [r.uniform(-5, w + 5) if k % 2 == 0 else r.uniform(-5, h + 5) for k in range(6)]
        ks, steps, ms = [0] * 6, [1.0] * 6, [0] * 6
        tot = r.choice([4, 6, 8, 8]) if v == 1 else r.choice([2, 3, 4])
        if deep and v != 1:
            tot += r.choice([0, 1, 2])
        idx = r.sample(range(6), r.choice([1, 2, 2, 3]) if tot > 2 else 1)
        for k in idx:
            b = max(1, min(8, tot // len(idx)))
            if r.random() < .15:
                ks[k], c[k], ms[k] = 1, float(r.randrange(16)), bitmask(r, min(b, 4), 4)
            else:
                steps[k] = r.choice([.25, .5, 1, 1, sc, 3, -1, -.5, -sc, 1e3, 1e-3, -1e9, 1e300])
                ms[k] = (1 << b) - 1
                if r.random() < .5:
                    c[k] -= steps[k] * (1 << b) / 2
        p = [w, h, v, st, r.choice([0, 0, 0, 2]), r.randrange(10 ** 6), bits(r.choice([sc, sc, 1.0, 0.0, -3.0, 1e300]))]
        for k in range(6):
            p += [ks[k], bits(c[k]), bits(steps[k]), ms[k]]
        if 2 <= v <= 40 and r.random() < .6:
            p += bars(r, n, sc, w, h)
        js.append(J("h_bounds", p, TAB, s=25 if not deep else 60))
    # the row or column of the bottom right alignment pattern black (or white) up to an edge
    for i in range(160 if not deep else 2000):
        v, sc = r.choice([2, 2, 3, 4, 5, 6, 7, 10, 14]), r.choice([2, 3, 4, 5])
        n = 4 * v + 17
        a, d, o = int((n - 6.5) * sc), (n - 7) * sc, 3.5 * sc
        w, h = [n * sc - r.choice([0, 0, 0, 3 * sc, 4 * sc, 5 * sc, 1]) for _ in range(2)]
        t, q, z = r.choice([sc, sc + 1, 3 * sc, 5 * sc]), i % 4, r.choice([0, 0, 0, 255])
        s, e = a - t // 2, a + r.choice([0, 0, sc // 2, sc, -sc])
        bar = [[e, s, w, t, z], [s, e, t, h, z], [0, s, e, t, z], [s, 0, t, e, z]][q]
        p = [w, h, v, 9 + sc, 0, r.randrange(10 ** 6), bits(sc)]
        idx = r.sample(range(6), r.choice([1, 2]))
        for k, c in enumerate([o, o, o + d, o, o, o + d]):
            st = r.choice([.25, .5, .5, 1])
            p += [0, bits(c - (r.choice([0, 1, 2]) * st if k in idx else 0)), bits(st), 3 if k in idx else 0]
        js.append(J("h_bounds", p + [1] + bar, TAB, s=25))
    return js


def c21(r, deep):
    js = []
    for v in range(1, 41):
        for t in (range(4) if v < 4 or deep else [r.randrange(4)]):
            if v > 20 and not deep and v % 4:
                continue
            s = 2 if v > 8 else r.choice([2, 3, 4])
            js.append(J("h_picture", [v, r.randrange(4), r.randrange(8), s, margin(r, s), t, r.randrange(10 ** 6), r.choice([0, 0, 3]), 1, r.choice([1, 2, 3, 16])], TAB, s=60))
    for i in range(60 if not deep else 1200):
        v = r.randrange(1, 8)
        s = r.choice([2, 3, 4, 5, 6] if v < 5 else [2, 3])
        k, b = r.choice([(1, 7), (2, 1), (1, 15), (1, 0x33), (2, 3)])
        js.append(J("h_picture", [v, r.randrange(4), r.randrange(8), s, margin(r, s), r.randrange(4), r.randrange(10 ** 6), r.choice([0, 0, 5]), k, b], TAB, s=60))
    return js


def c22(r, deep):
    js = []

    def add(e, jobs, need):
        for k, j in enumerate(jobs):
            js.append(J(e, j["p"], TAB + (" fs=1" if k % 2 else ""), need=need, s=j["s"] * 3))
    scan = c16(r, deep)
    add("h_debug_scan", [j for k, j in enumerate(scan) if deep or k < 12 and j["s"] < 90 or k >= 17 and k % 2], [1])
    for v in list(range(1, 41)):
        if v > 12 and not deep and v % 5:
            continue
        for t in (range(4) if v < 3 or deep else [r.randrange(4)]):
            s = 2 if v > 8 else r.choice([2, 3, 4])
            k = r.choice([1, 2]) if v < 15 else 1
            js.append(J("h_debug_symbol", [v, r.randrange(4), r.randrange(8), s, margin(r, s), t, r.randrange(10 ** 6), k], TAB + (" fs=1" if r.random() < .5 else ""), need=[1], s=60))
    # the alignment search draws a picture for every place it tries: mostly small ones
    bounds = c18(r, deep)
    bounds = [j for k, j in enumerate(bounds) if deep or k % 6 == 0]
    cheap = lambda j: j["p"][2] == 1 or j["p"][0] * j["p"][1] < 700
    add("h_debug_bounds", [j for j in bounds if cheap(j)], [1])
    add("h_debug_bounds", sorted([j for j in bounds if not cheap(j)], key=lambda j: j["p"][0] * j["p"][1])[:None if deep else 10], [1])
    return js


# ---------------------------------------------------------------- C19 C20: pipeline, builder

def c19(r, deep):
    js = []
    for n in range(0, 4 if not deep else 6):
        js.append(J("h_pipe", [n, 1, 255, 3, 1], TAB0, s=200))
    for n in range(1, 4 if not deep else 6):
        js.append(J("h_pipe", [n, 1, 0, 7, 1], TAB0, s=200))
    js.append(J("h_pipe", [2, 2, 255, 3, 2], TAB0, s=200))
    js.append(J("h_pipe", [1, 3, 255, 3, 2], TAB0, s=200))
    js.append(J("h_pipe", [1, 3, 7, 7, 2], TAB0, s=200))
    # many locations, fixed outcomes, all values symbolic
    for i in range(24 if not deep else 200):
        js.append(J("h_pipe", [r.choice([4, 5, 8, 16, 33, 64]), r.choice([1, 1, 2]), 255, 0, r.randrange(10 ** 6)], TAB0))
    js.append(J("h_pipe", [15, 2, 255, 4, 3], TAB0, s=100))
    if deep:
        js.append(J("h_pipe", [2, 3, 255, 3, 2], TAB0, s=900))
    return js


def c20(r, deep):
    js = []
    for chain in (0, 1):
        for first in range(8):
            js.append(J("h_builder", [3, first, chain], TAB0, need=[1, 2]))
        js.append(J("h_builder", [5 if not deep else 7, 0, chain], TAB0, need=[1, 2], s=200))
    js.append(J("h_defaults", [0], TAB0, s=100))
    js.append(J("h_defaults", [15], TAB0, s=100))
    return js


# ---------------------------------------------------------------- C24-C28: several symbols, turned symbols, function patterns, reuse

def layout(r, n, versions, scales):
    """n symbols below or beside each other, at least four modules (of the larger) apart"""
    syms, x, y, w, h = [], 0, 0, 0, 0
    prev, row = 0, 0
    wide = r.random() < .5
    for i in range(n):
        v, s = r.choice(versions), r.choice(scales)
        side = (4 * v + 17) * s
        gap = r.choice([4, 4, 5, 6, 9, 10, 11, 12, 15, 20, 30, 45]) * max(s, prev) + r.choice([0, 0, 1, 3]) if i else r.choice([0, 4 * s, r.randrange(20)])
        off = r.choice([0, 4 * s, r.randrange(30)])
        if wide:
            px, py = x + gap, off
            x = px + side
        else:
            px, py = off, y + gap
            y = py + side
        w, h, prev = max(w, px + side), max(h, py + side), s
        syms.append([v, r.randrange(4), r.randrange(8), s, px, py, r.randrange(4)])
    m = r.choice([0, 1, 8])
    return w + m, h + m, [k for q in syms for k in q]


def c24(r, deep):
    js = []
    for i in range(150 if not deep else 3000):
        n = r.choice([2, 2, 2, 3, 4]) if i % 4 else 2
        small = i % 5
        w, h, q = layout(r, n, [1, 1, 2, 3, 4] if small else list(range(1, 16)), [2, 3, 4] if i % 3 else r.choice([[2], [3], [2, 6], [2, 3, 5, 8]]))
        if w * h > 400 * 400:
            w, h, q = layout(r, 2, [1, 2, 3], [2, 3])
        k = r.choice([0, 1, 2]) if n > 2 else r.choice([1, 2, 3])
        js.append(J("h_several", [w, h, len(q) // 7, r.randrange(10 ** 6), 0, k] + q, TAB, s=60))
    for i in range(24 if not deep else 500):
        n = r.choice([2, 2, 3])
        w, h, q = layout(r, n, [1, 1, 2, 3, 4, 5], [2, 3, 5])
        if w * h > 160 * 300:
            w, h, q = layout(r, 2, [1, 2], [2, 3])
        js.append(J("h_several", [w, h, len(q) // 7, r.randrange(10 ** 6), 1, 1] + q, TAB, s=60))
    return js


def slant(r, v, s, deg, where=.5, quiet=0):
    n = 4 * v + 17
    t = math.radians(deg)
    half = n * s / 2 * (abs(math.cos(t)) + abs(math.sin(t)))
    mg = r.choice([4 * s, 4 * s, 5 * s, 9 * s]) if quiet else r.choice([1, 1, s, 4 * s])
    w = int(2 * (half + mg)) + 1
    ox, oy = [half + mg + r.random() * where for _ in range(2)]
    return w, w, [bits(s), bits(math.cos(t)), bits(math.sin(t)), bits(ox), bits(oy)]


def c25(r, deep):
    js = []
    # large symbols: small errors of the step add up
    for v in [40, 36, 32, 28, 24, 40, 38, 30] * (1 if not deep else 8):
        w, h, q = slant(r, v, 6, r.choice([r.uniform(0, 360), r.uniform(-8, 8), r.choice([90, 180, 270]) + r.uniform(-5, 5)]))
        js.append(J("h_slanted", [v, r.randrange(4), r.randrange(8), r.randrange(10 ** 6), w, h] + q + [len(js) % 2, 0, 0], MRG, s=200))
    for i in range(200 if not deep else 4000):
        v = r.randrange(1, 11) if i % 3 else r.choice([1, 2, 2, 3, 14, 20, 27, 33, 40][: 9 if deep else 6])
        s = r.choice([6, 6, 7, 8, 10, 6.5, 7.3, r.uniform(6, 9)]) if v < 15 else r.choice([6, 6.2, 7])
        deg = r.choice([r.uniform(0, 360), r.uniform(0, 360), r.uniform(-8, 8), 45, 135, 225, 315, 30, r.choice([90, 180, 270]) + r.uniform(-3, 3)])
        w, h, q = slant(r, v, s, deg)
        js.append(J("h_slanted", [v, r.randrange(4), r.randrange(8), r.randrange(10 ** 6), w, h] + q + [i % 2, 0, 0], MRG))
    return js


# a row through the ring of a tilted finder passes for a finder itself and spoils the module size of that finder
ONE_OFF = [
    [7,1,1,323044,341,341,4618809254682895142,4607180847204405366,13804413335979209362,4640209392320360041,4640214294917066859,0],
    [6,3,2,664110,322,322,4618658052400955600,4607156599172693910,4590116515469775271,4639871038631162347,4639880224403834658,0],
    [8,1,3,887049,377,377,4618631821655920376,13814289182140977663,4607148443858931820,4640845461907789476,4640835918403599178,0]]


def c26(r, deep):
    js = [J("h_slanted", q + [1, 1], TAB) for q in ONE_OFF]
    for i in range(120 if not deep else 3000):
        v = r.randrange(1, 8) if i % 3 else r.randrange(1, 11)
        s = r.choice([6, 6, 7, 8, 10, 6.5, 7.3, r.uniform(6, 9)]) if v < 8 else r.choice([6, 6.5, r.uniform(6, 7)])
        deg = r.choice([r.uniform(-5, 5), r.uniform(-5, 5), r.uniform(-1, 1), 5, -5]) + 90 * r.randrange(4)
        w, h, q = slant(r, v, s, deg, 1, 1)
        js.append(J("h_slanted", [v, r.randrange(4), r.randrange(8), r.randrange(10 ** 6), w, h] + q + [0, r.choice([1, 2, 3]) if v < 8 else 1, 1], TAB))
    return js


def c30(r, deep):
    js = []
    edge = lambda: r.choice([0, 0, 1, 5, 7, r.randrange(0, 40)])
    for i in range(66 if not deep else 1000):
        kind = i % 11
        w, h = prep_size(r)
        b, m = r.choice([(5, 7), (5, 7), (3, 5), (1, 3), (4, 7)])
        if i < 11:
            w, h = r.choice([(0, 0), (0, 3), (1, 1), (4, 0)])
        js.append(J("h_kinds", [kind, w, h, b, m, r.randrange(10 ** 6), *r.choice([(1, 255), (2, 15), (3, 7), (2, 112), (5, 1), (4, 128)]), edge(), edge(), edge(), edge(), 0, 0, 0, 0], MRG, need=[1], s=15))
    for i in range(44 if not deep else 500):
        kind = i % 11
        v = r.choice([1, 2, 3])
        js.append(J("h_kinds", [kind, 0, 0, 5, 7, r.randrange(10 ** 6), r.choice([1, 2, 3]), 0, edge(), edge(), edge(), edge(), v, r.randrange(4), r.randrange(8), r.choice([2, 3, 4])], TAB, need=[2]))
    return js


def c29(r, deep):
    js = [J("h_slanted", q + [1, 2], TAB) for q in ONE_OFF]
    for i in range(90 if not deep else 2500):
        v = r.randrange(1, 6) if i % 3 else r.randrange(1, 9)
        deg = 90 * r.randrange(4)
        s = r.choice([4, 4.5, 5.5, 6.7, 7.3, r.uniform(4, 5), r.uniform(4, 8)])
        if i % 2 and v > 1:
            deg += r.choice([r.uniform(-5, 5), r.uniform(-5, 5), r.uniform(-1, 1), 5, -5])
        w, h, q = slant(r, v, s, deg, 1, 1)
        js.append(J("h_slanted", [v, r.randrange(4), r.randrange(8), r.randrange(10 ** 6), w, h] + q + [0, 3 if v < 5 else 2 if v < 8 else 1, 2], TAB))
    return js


def c27(r, deep):
    js = []
    for i, (v, l) in enumerate(combos(r)):
        js.append(J("h_function", [v, l, i % 8, r.randrange(10 ** 6), 0, 0, 0, [0, 1, 2, 0, 2, 3][i % 6]], MRG))
    for i, (v, l) in enumerate(combos(r, 60 if not deep else 160)):
        js.append(J("h_function", [v, l, r.randrange(8), r.randrange(10 ** 6), 0, 1, r.choice([1, 1, 2, 3, 30]), i % 3], MRG))
    for i, (v, l) in enumerate(combos(r, 80 if not deep else 160)):
        js.append(J("h_function", [v, l, r.randrange(8), r.randrange(10 ** 6), r.choice([3, 5, 6]), 1, r.choice([0, 1]), r.choice([0, 1])], TAB))
    return js


def c28(r, deep):
    js = []

    def call(v, l, k, s=2):
        return [v, l, r.randrange(8), s, k]
    m = 1 if not deep else 12
    for i in range(60 * m):
        v = r.choice([1, 2, 3, 5, 7, 10, r.randrange(1, 41)])
        l = r.randrange(4)
        seq = [call(v, l, 4) if i % 3 else call(r.randrange(1, 41), r.randrange(4), 3)]
        # same version another level, same level another version, the same again
        seq += [call(v, (l + 1 + i % 3) % 4, 0), call(v, l, 0)] + ([call(r.choice([max(1, v - 1), min(40, v + 1), r.randrange(1, 41)]), l, 0), call(v, l, 0)] if i % 2 else [])
        js.append(J("h_again", [0, r.randrange(10 ** 6), len(seq)] + sum(seq, []) + [5, 7], TAB))
    for i in range(12 * m):
        seq = []
        for _ in range(r.choice([2, 3, 4])):
            w, h = r.randrange(0, 30), r.randrange(0, 30)
            seq.append([w, h, 0, 0, r.choice([0, 1, 2])])
        seq.append(seq[0][:4] + [0])
        js.append(J("h_again", [1, r.randrange(10 ** 6), len(seq)] + sum(seq, []) + list(prep_blocks(r)), MRG))
    for i in range(16 * m):
        a, b = r.randrange(1, 8), r.randrange(1, 8)
        seq = [call(a, 0, 3), call(b, 1, 0), call(a, 2, 0)] + ([call(b, 3, 0)] if i % 2 else [])
        js.append(J("h_again", [2, r.randrange(10 ** 6), len(seq)] + sum(seq, []) + [5, 7], TAB))
        js.append(J("h_again", [3, r.randrange(10 ** 6), len(seq)] + sum(seq, []) + [5, 7], TAB))
    # modules of very different sizes one after the other
    for i in range(8 * m):
        what = r.choice([2, 2, 3, 4]) if i else 2
        big, small = r.choice([14, 20, 25, 32] if what < 4 else [14, 18]), 2
        seq = [call(1, r.randrange(4), i % 2, big), call(1 + i % 2, r.randrange(4), 0, small), call(1, r.randrange(4), 0, big), call(2, r.randrange(4), 0, r.choice([2, 3]))]
        js.append(J("h_again", [what, r.randrange(10 ** 6), len(seq)] + sum(seq, []) + [5, 7], TAB, s=60))
    for i in range(10 * m):
        a, b = r.randrange(1, 5), r.randrange(1, 5)
        seq = [call(a, r.randrange(4), 2), call(b, r.randrange(4), 0), call(a, r.randrange(4), 0)]
        js.append(J("h_again", [4, r.randrange(10 ** 6), len(seq)] + sum(seq, []) + [5, 7], TAB))
    return js


PLANS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25, "C26": c26, "C27": c27, "C28": c28, "C29": c29, "C30": c30}


def plan(prop, deep, seed):
    r = random.Random("%s-%d" % (prop, seed))
    return PLANS[prop](r, deep)
