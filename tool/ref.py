"""Reference values the analysis compares against: field moduli, round-number
formulas, Grain-LFSR tables.  Nothing here reads /repo."""
import json, math, os, sys
from math import ceil, floor, gcd, lgamma, log

HERE = os.path.dirname(os.path.abspath(__file__))
REF = os.path.join(os.path.dirname(HERE), "ref")

P = {
    "goldilocks": 2**64 - 2**32 + 1,
    "babybear": 2**31 - 2**27 + 1,
    "bls": 0x73EDA753299D7D483339D80809A1D80553BDA402FFFE5BFEFFFFFFFF00000001,
    "bn": 0x30644E72E131A029B85045B68181585D2833E84879B9709143E1F593F0000001,
    "pallas": 0x40000000000000000000000000000000224698FC094CF91B992D30ED00000001,
    "vesta": 0x40000000000000000000000000000000224698FC0994A8DD8C46EB2100000001,
}
# prime factors of p - 1
FACTORS = {
    "goldilocks": [2, 3, 5, 17, 257, 65537],
    "babybear": [2, 3, 5],
    "bls": [2, 3, 11, 19, 10177, 125527, 859267, 906349, 2508409, 2529403, 52437899, 254760293],
    "bn": [2, 3, 13, 29, 983, 11003, 237073, 405928799, 1670836401704629, 13818364434197438864469338081],
    "pallas": [2, 3, 463, 539204044132271846773, 8999194758858563409123804352480028797519453],
    "vesta": [2, 3, 1709, 24859, 1690502597179744445941507, 10427374428728808478656897599072717],
}
FIELDS = list(P)


def degree(f):
    """Smallest admissible S-box degree."""
    d = 3
    while gcd(d, P[f] - 1) != 1:
        d += 2
    return d


# ---- Poseidon / Poseidon2 round numbers (poseidon2_rust_params.sage) ---------
def _binlog(over, under):
    return (lgamma(over + 1) - lgamma(under + 1) - lgamma(over - under + 1)) / log(2)


def _sat(p, t, RF, RP, a, M):
    n = p.bit_length()
    lg = log(p) / log(2)
    R1 = 6 if M <= floor(lg - ((a - 1) / 2.0)) * (t + 1) else 10
    R2 = 1 + ceil(log(2, a) * min(M, n)) + ceil(log(t, a)) - RP
    R3 = log(2, a) * min(M, lg) - RP
    R4 = t - 1 + log(2, a) * min(M / float(t + 1), lg / 2) - RP
    R5 = (t - 2 + M / (2 * log(a, 2)) - RP) / float(t - 1)
    mx = max(ceil(R1), ceil(R2), ceil(R3), ceil(R4), ceil(R5))
    r = floor(t / 3.0)
    over = (RF - 1) * t + RP + r + r * (RF / 2.0) + RP + a
    under = r * (RF / 2.0) + RP + a
    return RF >= mx and ceil(2 * _binlog(over, under)) >= M


def rounds(f, t, M=128):
    p, a = P[f], degree(f)
    best, mc, mrf = None, float("inf"), 0
    for rp in range(1, 500):
        RP = rp
        for rf0 in range(4, 100):
            RF = rf0
            if RF % 2 == 0 and _sat(p, t, RF, RP, a, M):
                RF += 2
                RP = int(ceil(float(RP) * 1.075))
                c = t * RF + RP
                if c < mc or (c == mc and RF < mrf):
                    best, mc, mrf = (RF, RP), c, RF
    return best


def gmimc_rounds(f, t, d):
    return max(2 + 2 * (t + t * t), ceil(2 * log(P[f]) / log(d)) + 2 * t)


def neptune_rp(f, t, d):
    p = P[f]
    return ceil(1.125 * ceil(log(2) / log(d) * (min(128, log(p, 2)) - 6) + 3 + t + log(t) / log(d)))


# ---- Grain LFSR -------------------------------------------------------------
class Grain:
    def __init__(s, sbox, n, t, rf, rp):
        b = "01" + format(sbox, "04b") + format(n, "012b") + format(t, "012b") + format(rf, "010b") + format(rp, "010b") + "1" * 30
        s.v = int(b[::-1], 2)  # bit i of v = b[i]
        for _ in range(160):
            s.step()

    def step(s):
        v = s.v
        n = (v >> 62 ^ v >> 51 ^ v >> 38 ^ v >> 23 ^ v >> 13 ^ v) & 1
        s.v = v >> 1 | n << 79
        return n

    def bits(s, k):
        r = 0
        for _ in range(k):
            while s.step() == 0:
                s.step()
            r = 2 * r + s.step()
        return r

    def below(s, n, p):
        while True:
            x = s.bits(n)
            if x < p:
                return x


# which candidate group of diagonal entries passed the generator's subspace tests
DIAG_GROUP = {
    ("goldilocks", 8): 4, ("goldilocks", 12): 9, ("goldilocks", 16): 47, ("goldilocks", 20): 7,
    ("babybear", 16): 19, ("babybear", 24): 5, ("bls", 4): 1, ("bls", 8): 9, ("pallas", 4): 1, ("pallas", 8): 7,
}


def gen_p2(f, t, rf, rp):
    p = P[f]
    n = p.bit_length()
    g = Grain(0, n, t, rf, rp)
    rc = []
    for r in range(rf + rp):
        if rf // 2 <= r < rf // 2 + rp:
            rc.append([g.below(n, p)] + [0] * (t - 1))
        else:
            rc.append([g.below(n, p) for _ in range(t)])
    if t == 2:
        diag = [1, 2]
    elif t == 3:
        diag = [1, 1, 2]
    else:
        for _ in range(DIAG_GROUP[f, t]):
            l = [g.bits(n) % p for _ in range(t)]
        diag = [(x - 1) % p for x in l]
    return rc, diag


def gen_poseidon(f, t, rf, rp):
    p = P[f]
    n = p.bit_length()
    g = Grain(1, n, t, rf, rp)
    rc = [[g.below(n, p) for _ in range(t)] for _ in range(rf + rp)]
    while True:
        l = [g.bits(n) % p for _ in range(2 * t)]
        xs, ys = l[:t], l[t:]
        if len(set(l)) == 2 * t and all((x + y) % p for x in xs for y in ys):
            break
    return rc, [[pow(x + y, -1, p) for y in ys] for x in xs]


P2_INST = {
    "POSEIDON2_GOLDILOCKS_8_PARAMS": ("goldilocks", 8), "POSEIDON2_GOLDILOCKS_12_PARAMS": ("goldilocks", 12),
    "POSEIDON2_GOLDILOCKS_16_PARAMS": ("goldilocks", 16), "POSEIDON2_GOLDILOCKS_20_PARAMS": ("goldilocks", 20),
    "POSEIDON2_BABYBEAR_16_PARAMS": ("babybear", 16), "POSEIDON2_BABYBEAR_24_PARAMS": ("babybear", 24),
    "POSEIDON2_BLS_2_PARAMS": ("bls", 2), "POSEIDON2_BLS_3_PARAMS": ("bls", 3), "POSEIDON2_BLS_4_PARAMS": ("bls", 4),
    "POSEIDON2_BLS_8_PARAMS": ("bls", 8), "POSEIDON2_BN256_PARAMS": ("bn", 3), "POSEIDON2_PALLAS_3_PARAMS": ("pallas", 3),
    "POSEIDON2_PALLAS_4_PARAMS": ("pallas", 4), "POSEIDON2_PALLAS_8_PARAMS": ("pallas", 8), "POSEIDON2_VESTA_PARAMS": ("vesta", 3),
}
POSEIDON_INST = {k.replace("POSEIDON2", "POSEIDON").replace("BN256", "BN"): v for k, v in P2_INST.items()}
GMIMC_INST = {}
for _f, _n, _ts in (("babybear", "BABYBEAR", (16, 24)), ("bls", "BLS", (2, 3, 4, 5, 8, 9, 12, 16, 20, 24)),
                    ("bn", "BN", (3, 4, 5, 8, 9, 12, 16, 20, 24)), ("goldilocks", "GOLDILOCKS", (8, 12, 16, 20)),
                    ("pallas", "PALLAS", (3, 4, 5, 8, 9, 12, 16, 20, 24)), ("vesta", "VESTA", (3, 4, 5, 8, 9, 12, 16, 20, 24))):
    for _t in _ts:
        GMIMC_INST["GMIMC_%s_%d_PARAMS" % (_n, _t)] = (_f, _t)
NEPTUNE_INST = {
    "NEPTUNE_BN_PARAMS": ("bn", 4), "NEPTUNE_BLS_4_PARAMS": ("bls", 4), "NEPTUNE_BLS_8_PARAMS": ("bls", 8),
    "NEPTUNE_GOLDILOCKS_8_PARAMS": ("goldilocks", 8), "NEPTUNE_GOLDILOCKS_12_PARAMS": ("goldilocks", 12),
    "NEPTUNE_GOLDILOCKS_16_PARAMS": ("goldilocks", 16), "NEPTUNE_GOLDILOCKS_20_PARAMS": ("goldilocks", 20),
    "NEPTUNE_BABYBEAR_16_PARAMS": ("babybear", 16), "NEPTUNE_BABYBEAR_24_PARAMS": ("babybear", 24),
    "NEPTUNE_PALLAS_4_PARAMS": ("pallas", 4), "NEPTUNE_PALLAS_8_PARAMS": ("pallas", 8), "NEPTUNE_VESTA_PARAMS": ("vesta", 4),
}


def generate():
    """All reference parameters: {instance: {t, d, rf, rp, rc, diag|mds}}."""
    out, rn = {}, {}
    for names, kind in ((P2_INST, "p2"), (POSEIDON_INST, "poseidon")):
        for n, (f, t) in names.items():
            if (f, t) not in rn:
                rn[f, t] = rounds(f, t)
            rf, rp = rn[f, t]
            rc, m = (gen_p2 if kind == "p2" else gen_poseidon)(f, t, rf, rp)
            e = {"field": f, "t": t, "d": degree(f), "rf": rf, "rp": rp, "rc": rc}
            e["diag" if kind == "p2" else "mds"] = m
            out[n] = e
    return out


def internal(t, diag, p):
    """The internal matrix belonging to diag - 1 entries."""
    return [[(1 + diag[i]) % p if i == j else 1 for j in range(t)] for i in range(t)]


def load():
    with open(os.path.join(REF, "reference.json")) as h:
        d = json.load(h)
    cv = lambda x: [cv(y) for y in x] if isinstance(x, list) else (int(x, 16) if isinstance(x, str) else x)
    for e in d.values():
        for k in ("rc", "diag", "mds"):
            if k in e:
                e[k] = cv(e[k])
    return d


def matrices():
    """Fixed dense 44 x 44 tables for analyses with a given matrix."""
    import random
    r = random.Random(20260901)
    return [[[r.getrandbits(62) for _ in range(44)] for _ in range(44)] for _ in range(3)]


def write_tables(d, path):
    with open(path, "w") as h:
        for k, m in enumerate(matrices()):
            for i, row in enumerate(m):
                for j, x in enumerate(row):
                    h.write("mat%d %d %d %x\n" % (k, i, j, x))
        for n, e in d.items():
            for k in ("rc", "mds"):
                for i, r in enumerate(e.get(k, [])):
                    for j, x in enumerate(r):
                        h.write("%s.%s %d %d %x\n" % (n, k, i, j, x))
            for i, x in enumerate(e.get("diag", [])):
                h.write("%s.diag %d 0 %x\n" % (n, i, x))


def rank(m, p):
    m = [list(r) for r in m]
    rk, rows, cols = 0, len(m), len(m[0])
    for c in range(cols):
        pv = next((r for r in range(rk, rows) if m[r][c] % p), None)
        if pv is None:
            continue
        m[rk], m[pv] = m[pv], m[rk]
        iv = pow(m[rk][c], -1, p)
        for r in range(rk + 1, rows):
            q = m[r][c] * iv % p
            if q:
                m[r] = [(a - q * b) % p for a, b in zip(m[r], m[rk])]
        rk += 1
    return rk


if __name__ == "__main__":
    d = generate()
    hx = lambda x: [hx(y) for y in x] if isinstance(x, list) else "%x" % x
    for e in d.values():
        for k in ("rc", "diag", "mds"):
            if k in e:
                e[k] = hx(e[k])
    os.makedirs(REF, exist_ok=True)
    with open(os.path.join(REF, "reference.json"), "w") as h:
        json.dump(d, h, indent=None, separators=(",", ":"))
        h.write("\n")
