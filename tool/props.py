"""What each check analyses and how the results are judged.

Every check is a function  cNN(ctx)  that schedules analyses with ctx.add /
ctx.run and reports with ctx.violation / ctx.undecided.  See DESIGN.md."""
import json, re
import ref
from core import Job

GB = ("goldilocks", "bls")
ALL = tuple(ref.FIELDS)
P2_T = (2, 3, 4, 8, 12, 16, 20, 24)
SHIPPED_R = ((8, 22), (8, 13), (8, 21), (8, 56), (8, 57))


def strip(label):
    return re.sub(r"\[\d+\]$", "", label)


def fn_of(loc):
    return loc.split(" in ", 1)[1] if " in " in loc else loc


# ---- judging one analysis --------------------------------------------------
def judge(ctx, cfg, j, r, anchor, values=True):
    """values=False: only termination and shape (C18)."""
    if r is None:
        ctx.undecided(j, "not analysed (entry context does not compile against this tree)")
        return "undecided"
    res = r["result"]
    if res in ("unsupported", "budget"):
        ctx.undecided(j, "%s: %s" % (res, r["why"]))
        return "undecided"
    if j.expect == "panics":
        if res == "panic":
            ctx.ok(j, r, 1)
            return "ok"
        if res == "bottom":
            ctx.undecided(j, "no path")
            return "undecided"
        w = [o["detail"] for o in r["obl"] if o["verdict"] == "violated"]
        ev = [e for e in r["events"] if e["kind"].startswith("maypanic")]
        why = "the call returns" + ("" if not ev else " for some inputs (rejects only: %s)" % ev[0]["what"][:200])
        ctx.violation(cfg, j, anchor, "accepted", why + ((": " + w[0][:200]) if w else ""))
        return "violated"
    if res == "panic":
        if j.expect == "either":
            ctx.ok(j, r, 1)
            return "ok"
        ctx.violation(cfg, j, fn_of(r["why"].rsplit(" at ", 1)[-1]) if " at " in r["why"] else anchor, "panics", "panics: " + r["why"], r.get("trace", ""))
        return "violated"
    if res == "bottom":
        ctx.undecided(j, "no path")
        return "undecided"
    bad = 0
    for o in r["obl"]:
        if not values and not re.search(r"length|get_t", o["label"]):
            continue
        if o["verdict"] == "violated":
            bad += 1
            if bad == 1:
                ctx.violation(cfg, j, anchor, strip(o["label"]), "%s: %s" % (o["label"], o["detail"]))
        elif o["verdict"] in ("undecided", "unshown"):
            ctx.undecided(j, "%s: %s" % (o["label"], o["detail"][:200]))
    for e in r["events"]:
        k = e["kind"]
        if k == "maypanic-in" or (k == "maypanic" and j.panics == "all"):
            bad += 1
            if bad == 1:
                ctx.violation(cfg, j, fn_of(e["loc"]) or anchor, "panics", "panics for some inputs: %s at %s" % (e["what"][:600], e["loc"]))
    if bad:
        return "violated"
    ctx.ok(j, r, len(r["obl"]))
    return "ok"


def waves(jobs):
    """Cheap analyses first, so that a violation ends the check early."""
    js = sorted(jobs, key=lambda j: j.cost)
    n = len(js)
    if n < 60:
        return [js]
    cut = [0, n // 8, n // 2, n]
    return [js[a:b] for a, b in zip(cut, cut[1:])]


def sweep(ctx, jobs, anchor, cfg="dbg", values=True):
    out = {}
    for w in waves(jobs):
        if ctx.viol:
            break
        res = ctx.run(cfg, w, stop=(lambda x: '"verdict":"violated"' in x) if values else None)
        for j in w:
            judge(ctx, cfg, j, res.get(j.id), j.meta.get("anchor", anchor), values)
        out.update(res)
    return out


# ---- integer literals of the analysed functions, to place size boundaries --
def harvest(ctx, roots, only, lo, hi, types="goldilocks"):
    j = Job("@effects", types, roots)
    r = ctx.run("dbg", [j]).get(j.id)
    out = set()
    if r and r.get("result") == "returned":
        for v, fns in r["ints"]:
            if lo <= v <= hi and any(o in f for f in fns for o in only):
                out.add(v)
    return out


def around(cs, lo, hi, step=1):
    return sorted({v for c in cs for v in (c - step, c, c + step, c + 2 * step) if lo <= v <= hi})


# ---- size partitions ---------------------------------------------------------
def p2_sizes(ctx):
    """(field, t, d, rf, rp)"""
    out = []
    lit = harvest(ctx, ["pure::p2", "pure::p2_params"], ["poseidon2::poseidon2::", "poseidon2_params::"], 0, 130)
    base = [(0, 0), (2, 0), (0, 1), (0, 2), (2, 1), (2, 2), (4, 3), (6, 4), (10, 5)]
    for t in P2_T:
        for d in (3, 5, 7, 11):
            for f in GB:
                for rf, rp in base if f == "goldilocks" or ctx.thorough else [(2, 1), (4, 3)]:
                    out.append((f, t, d, rf, rp))
        for d in (5, 7) if not ctx.thorough else (3, 5, 7, 11):
            for rf, rp in SHIPPED_R:
                out.append(("goldilocks" if d == 7 else "bls", t, d, rf, rp))
        for f in ALL:
            out.append((f, t, ref.degree(f), 4, 2))
        for rp in around(lit, 0, 130 if ctx.thorough else 100):
            out.append(("goldilocks", t, 7, 2, rp))
            if rp % 2 == 0 and rp <= 34:
                out.append(("goldilocks", t, 7, rp, 1))
        for rf, rp in BIG_R if t <= 4 or ctx.thorough else BIG_R[-1:]:
            out.append(("goldilocks", t, 7, rf, rp))
    return sorted(set(out))


# far beyond every shipped round number: counters narrower than the type
BIG_R = ((2, 130), (130, 1), (258, 3), (4, 258))
SPECIAL = tuple((tab, 9) for tab in (0, 1, 2, 3)) + tuple((9, inp) for inp in range(9)) + ((1, 0), (1, 1), (2, 2), (0, 0), (3, 4))


def c01(ctx):
    jobs = [Job("p2::perm", f, (t, d, rf, rp), cost=1 + t * (rf + rp), panics="all") for f, t, d, rf, rp in p2_sizes(ctx)]
    # special tables and parts of the input space
    for t in P2_T:
        for d in (3, 5, 7, 11):
            for tab, inp in SPECIAL:
                for f in GB if ctx.thorough else GB[(t + d) // 2 % 2:][:1]:
                    jobs.append(Job("p2::perm_p", f, (t, d, 4, 5, tab, inp), cost=1 + t, panics="all"))
    sweep(ctx, jobs, "zkhash::poseidon2::poseidon2::Poseidon2::permutation")
    if ctx.thorough:
        jobs = [Job("p2::perm", f, (t, ref.degree(f), rf, rp), cost=1 + t * (rf + rp), panics="all") for f in ALL for t in P2_T for rf in range(0, 14, 2) for rp in (0, 1, 2, 5, 9, 30, 64, 90)]
        sweep(ctx, jobs, "zkhash::poseidon2::poseidon2::Poseidon2::permutation")


def tohex(x):
    return [tohex(y) for y in x] if isinstance(x, list) else ("0x%x" % x if isinstance(x, int) else x)


def dumps(r):
    return {k: v for k, v in r["dumps"]}


def table_diff(got, want):
    """First difference between a dumped table and the reference, or None."""
    if not isinstance(got, list):
        return "not a table: %s" % str(got)[:100]
    if len(got) != len(want):
        return "%d entries instead of %d" % (len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if isinstance(w, list):
            d = table_diff(g, w)
            if d:
                return "row %d: %s" % (i, d)
        elif g != "0x%x" % w:
            return "entry %d is %s instead of 0x%x" % (i, g if isinstance(g, str) else json.dumps(g)[:80], w)
    return None


def instances(ctx, names, mod, tables, anchor):
    R = ref.load()
    if ctx.thorough:
        G = ref.generate()
        if {k: {a: b for a, b in v.items()} for k, v in G.items()} != R:
            raise RuntimeError("ref/reference.json does not match its generator")
    jobs = []
    for n, (f, t) in names.items():
        e = R[n]
        cost = (e["t"] ** 3 * e["rp"] if mod == "inst_poseidon" else e["t"] ** 2 * e["rp"]) / 3000
        jobs.append(Job("%s::%s::perm" % (mod, n), "", (e["t"], e["d"], e["rf"], e["rp"]), cost=1 + cost, anchor=n, inst=n))
    sweep(ctx, jobs, anchor)
    dj = [Job("%s::%s::dump" % (mod, n), cost=1 + R[n]["t"] ** 3 / 300, inst=n) for n in names]
    res = ctx.run("dbg", dj)
    for j in dj:
        r = res.get(j.id)
        n = j.meta["inst"]
        e = R[n]
        if r is None or r["result"] in ("unsupported", "budget", "bottom"):
            ctx.undecided(j, "tables: %s" % (r["why"] if r else "not analysed"))
            continue
        if r["result"] == "panic":
            ctx.violation("dbg", j, n, "panics", "building the instance panics: " + r["why"])
            continue
        d = dumps(r)
        if d.get("t") != str(e["t"]):
            ctx.violation("dbg", j, n, "state size", "get_t() is %s, the name says %d" % (d.get("t"), e["t"]))
        p = ref.P[e["field"]]
        want = {"RC": e["rc"], "DIAG": e.get("diag"), "MAT": ref.internal(e["t"], e["diag"], p) if "diag" in e else None, "MDS": e.get("mds")}
        for k in tables:
            x = table_diff(d.get(k), want[k])
            if x:
                ctx.violation("dbg", j, "%s (table %s)" % (n, k), "exported table " + k, "%s of %s: %s" % (k, n, x))
            else:
                ctx.ok(j, r, 1, "exported table %s of %s equals the generated one (%d rows)" % (k, n, len(want[k])))


def c02(ctx):
    instances(ctx, ref.P2_INST, "inst_p2", ("RC", "DIAG", "MAT"), "Poseidon2 instance")


def poseidon_rounds(ctx):
    lit = harvest(ctx, ["pure::poseidon", "pure::poseidon_params"], ["poseidon::poseidon::", "poseidon_params::"], 0, 130)
    return lit


def poseidon_sizes(ctx, ks):
    """symbolic matrices for small t, given ones for larger t"""
    lit = poseidon_rounds(ctx)
    sym, con = set(), set()
    base = [(2, 1), (0, 1), (2, 2), (4, 3), (6, 4)]
    for d in (3, 5, 7):
        for f in GB:
            for r in base + ([(8, 9), (2, 7)] if ctx.thorough else []):
                sym.add((f, 2, d, *r))
                if f == "bls" or ctx.thorough:
                    sym.add((f, 3, d, *r))
    sym |= {("bls", 2, 5, 8, 56), ("goldilocks", 4, 3, 2, 1), ("goldilocks", 4, 7, 2, 2)}
    if ctx.thorough:
        sym |= {("bls", 3, 5, 8, 56), ("bls", 4, 5, 2, 3), ("bls", 4, 3, 4, 4), ("goldilocks", 5, 3, 2, 1), ("goldilocks", 5, 7, 2, 2)}
    for t in (2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20, 24) if not ctx.thorough else tuple(range(2, 25)):
        for d in (3, 5, 7):
            for r in base[:3] if t > 9 else base:
                for f in GB if t <= 9 or ctx.thorough else ("goldilocks",):
                    con.add((f, t, d, *r, ks[(t + d) % len(ks)]))
        for r in SHIPPED_R:
            if t <= (24 if ctx.thorough else 8):
                con.add(("goldilocks", t, 7, *r, ks[0]))
                con.add(("bls", t, 5, *r, ks[-1]))
        for f in ALL:
            con.add((f, t, ref.degree(f), 2, 2, ks[0]))
        if t <= 4:
            for rp in around(lit, 1, 110):
                con.add(("goldilocks", t, 7, 2, rp, ks[0]))
                if rp % 2 == 0 and rp <= 34:
                    con.add(("goldilocks", t, 7, rp, 2, ks[0]))
        for rf, rp in BIG_R if t <= 3 or ctx.thorough and t <= 8 else ():
            con.add(("goldilocks", t, 7, rf, rp, ks[0]))
    for t in {v for v in around(lit, 2, 40)} | set(range(10, 26)) | {32, 33}:
        con.add(("goldilocks", t, 7, 2, 2, ks[0]))
    return sorted(sym), sorted(con)


def c03(ctx):
    sym, con = poseidon_sizes(ctx, (0, 1, 2))
    jobs = [Job("poseidon::plain", f, a, cost=4 ** a[0] * (1 + a[3] / 4)) for f, *a in sym if a[0] <= (3 if not ctx.thorough else 4)]
    jobs += [Job("poseidon::plain_k", f, a, cost=2 + a[0] ** 3 * (a[3] + 2) / 200) for f, *a in con]
    jobs += [Job("poseidon::perm_p", f, (t, d, 4, 3, tab, inp, 1), cost=1 + t ** 2 / 10) for t in (2, 3, 4, 8) for d in (3, 5, 7) for f in GB[(t + d) // 2 % 2:][:1] for tab, inp in SPECIAL]
    sweep(ctx, jobs, "zkhash::poseidon::poseidon::Poseidon::permutation_not_opt")


def c04(ctx):
    sym, con = poseidon_sizes(ctx, (0, 1, 2))
    jobs = [Job("poseidon::opt", f, a, cost=6 ** a[0] * (1 + a[3] / 4)) for f, *a in sym]
    jobs += [Job("poseidon::opt_k", f, a, cost=2 + a[0] ** 3 * (a[3] + 2) / 200) for f, *a in con]
    jobs += [Job("poseidon::perm_p", f, (t, d, 4, 3, tab, inp, 0), cost=1 + t ** 2 / 10) for t in (2, 3, 4, 8) for d in (3, 5, 7) for f in GB[(t + d) // 2 % 2:][:1] for tab, inp in SPECIAL]
    R = ref.load()
    jobs += [Job("inst_poseidon::%s::opt" % n, "", (t,), cost=2 + t ** 3 * R[n]["rp"] / 200, anchor="zkhash::poseidon::poseidon::Poseidon::permutation with " + n) for n, (f, t) in ref.POSEIDON_INST.items()]
    sweep(ctx, jobs, "zkhash::poseidon::poseidon::Poseidon::permutation")


def c05(ctx):
    instances(ctx, ref.POSEIDON_INST, "inst_poseidon", ("RC", "MDS"), "Poseidon instance")


def gmimc_sizes(ctx):
    lit = harvest(ctx, ["pure::gmimc", "pure::gmimc_params"], ["gmimc::gmimc::", "gmimc_params::"], 0, 300)
    out = set()
    for t in tuple(range(2, 17)) + (20, 24, 25) if not ctx.thorough else tuple(range(2, 41)):
        for d in (3, 5, 7):
            for f in GB:
                for r in (1, 2, 3, t - 1, t, t + 1, 2 * t + 1, 3 * t) if f == "bls" or ctx.thorough else (3, t + 2):
                    if r >= 1:
                        out.add((f, t, d, r))
        for f in ALL:
            out.add((f, t, ref.degree(f), 5))
        for r in around(lit, 1, 300 if ctx.thorough else 130):
            if t <= 8:
                out.add(("bls", t, 5, r))
        out.add(("bls", t, 5, ref.gmimc_rounds("bls", t, 5)))
    for t in around(lit, 2, 70) + [32, 33, 48, 64, 65]:
        out.add(("goldilocks", t, 7, 2 * t + 3))
    return sorted(out)


def c06(ctx):
    jobs = [Job("gmimc::perm", f, a, cost=1 + a[0] * a[2] / 20, panics="all") for f, *a in gmimc_sizes(ctx)]
    jobs += [Job("gmimc::perm_p", f, (t, d, 2 * t + 3, inp), cost=1 + t * t / 10, panics="all") for t in (2, 3, 4, 7, 8, 9, 12, 16) for d in (3, 5, 7) for f in GB[(t + d) // 2 % 2:][:1] for inp in range(9)]
    sweep(ctx, jobs, "zkhash::gmimc::gmimc::Gmimc::permutation / permutation_not_opt")


def neptune_sizes(ctx):
    lit = harvest(ctx, ["pure::neptune", "pure::neptune_params"], ["neptune::neptune::", "neptune_params::"], 0, 130)
    out = set()
    ts = (2, 4, 6, 8, 10, 12, 16, 20, 24, 30) if not ctx.thorough else tuple(range(2, 41, 2))
    for t in ts:
        for d in (3, 5, 7):
            for f in GB:
                for r in ((2, 1), (2, 0), (0, 2), (0, 0), (4, 3), (6, 5)) if f == "bls" or ctx.thorough else ((2, 2),):
                    out.add((f, t, d, *r))
        for f in ALL:
            out.add((f, t, ref.degree(f), 6, 4))
        out.add(("bls", t, 5, 6, ref.neptune_rp("bls", t, 5)))
        out.add(("goldilocks", t, 7, 6, ref.neptune_rp("goldilocks", t, 7)))
        if t in (4, 8):
            for rp in around(lit, 0, 130):
                out.add(("goldilocks", t, 7, 2, rp))
                if rp % 2 == 0 and rp <= 34:
                    out.add(("goldilocks", t, 7, rp, 1))
    out.add(("goldilocks", 60, 7, 2, 2))
    for t in (4, 6, 8):
        for rf, rp in BIG_R:
            out.add(("goldilocks", t, 7, rf, rp))
    for t in around(lit, 2, 66) + around(lit, 2, 66, 2):
        if t % 2 == 0:
            out.add(("goldilocks", t, 7, 2, 2))
    return sorted(out)


def c07(ctx):
    jobs = [Job("neptune::perm", f, a, cost=1 + a[0] ** 2 * (a[2] + a[3]) / 40, panics="all") for f, *a in neptune_sizes(ctx)]
    jobs += [Job("neptune::perm_p", f, (t, d, 4, 3, inp), cost=1 + t * t / 10, panics="all") for t in (2, 4, 6, 8, 12) for d in (3, 5, 7) for f in GB[(t + d) // 2 % 2:][:1] for inp in range(9)]
    sweep(ctx, jobs, "zkhash::neptune::neptune::Neptune::permutation")


def c08(ctx):
    from math import gcd
    fam = [("inst_gmimc", n, f, t) for n, (f, t) in ref.GMIMC_INST.items()] + [("inst_neptune", n, f, t) for n, (f, t) in ref.NEPTUNE_INST.items()]
    jobs = [Job("%s::%s::dump" % (m, n), cost=1 + t * t / 8, inst=(m, n, f, t)) for m, n, f, t in fam]
    res = ctx.run("dbg", jobs)
    perm = []
    for j in jobs:
        m, n, f, t = j.meta["inst"]
        r = res.get(j.id)
        if r is None or r["result"] in ("unsupported", "budget", "bottom"):
            ctx.undecided(j, r["why"] if r else "not analysed")
            continue
        if r["result"] == "panic":
            ctx.violation("dbg", j, n, "panics", "building the instance panics: " + r["why"])
            continue
        d = dumps(r)
        num = lambda k: int(d[k]) if k in d and str(d[k]).isdigit() else None
        par = d.get("params") if isinstance(d.get("params"), dict) else {}
        deg = par.get("d") if isinstance(par.get("d"), int) else ref.degree(f)
        if num("t") != t:
            ctx.violation("dbg", j, n, "state size", "get_t() is %s, the name says %d" % (d.get("t"), t))
            continue
        if gcd(deg, ref.P[f] - 1) != 1:
            ctx.violation("dbg", j, n, "degree", "degree %d is not invertible in this field" % deg)
        if m == "inst_gmimc":
            if num("get_t") != t:
                ctx.violation("dbg", j, n, "reported size", "the parameter object reports size %s" % d.get("get_t"))
            rounds, need = num("get_rounds"), ref.gmimc_rounds(f, t, deg)
            if rounds is None:
                ctx.undecided(j, "number of rounds unknown")
                continue
            if rounds < need:
                ctx.violation("dbg", j, n, "rounds", "%d rounds, the documented formula gives %d" % (rounds, need))
            else:
                ctx.ok(j, r, 3, "%s: t=%d, d=%d, %d rounds >= %d" % (n, t, deg, rounds, need))
            perm.append(Job("inst_gmimc::%s::perm" % n, "", (t, deg, rounds), cost=1 + t * rounds / 100, anchor=n))
        else:
            total, need = num("rounds"), ref.neptune_rp(f, t, deg)
            if total is None:
                ctx.undecided(j, "number of rounds unknown")
                continue
            rf = 6
            if all(isinstance(par.get(k), int) for k in ("rounds_f_beginning", "rounds_f_end", "rounds_p")):
                rf = par["rounds_f_beginning"] + par["rounds_f_end"]
                if par["rounds_p"] + rf != total:
                    ctx.violation("dbg", j, n, "constants", "%d vectors of constants for %d rounds" % (total, par["rounds_p"] + rf))
            if rf != 6:
                ctx.violation("dbg", j, n, "external rounds", "%d external rounds instead of 6" % rf)
            rp = total - rf
            if rp < need:
                ctx.violation("dbg", j, n, "rounds", "%d internal rounds, the documented formula gives %d" % (rp, need), key="%s internal rounds %d<%d" % (n, rp, need))
            else:
                ctx.ok(j, r, 3, "%s: t=%d, d=%d, 6+%d rounds >= 6+%d" % (n, t, deg, rp, need))
            perm.append(Job("inst_neptune::%s::perm" % n, "", (t, deg, rf, rp), cost=1 + t * t * rp / 100, anchor=n))
    # the instance really runs that many rounds of that degree
    sweep(ctx, perm, "instance")
    # parameter objects report what they were built with, for other sizes as well
    jobs = [Job("gmimc::perm", "bls", (t, 5, r), cost=1) for t in (2, 3, 4, 7, 11) for r in (1, 2, 5, 17)]
    jobs += [Job("neptune::perm", "bls", (t, 5, rf, rp), cost=1) for t in (2, 4, 6, 8, 12) for rf, rp in ((2, 1), (4, 0), (0, 3))]
    res = ctx.run("dbg", jobs)
    for j in jobs:
        r = res.get(j.id)
        if r is None or r["result"] != "returned":
            ctx.undecided(j, "%s" % (r["why"] if r else "not analysed"))
            continue
        for o in r["obl"]:
            if re.search(r"get_t|get_rounds|constant", o["label"]) and o["verdict"] == "violated":
                ctx.violation("dbg", j, "parameter constructor", strip(o["label"]), o["label"] + ": " + o["detail"])
        ctx.ok(j, r, len([o for o in r["obl"] if re.search(r"get_t|get_rounds|constant", o["label"])]))


def mat_of(rows, p):
    """Dumped matrix of constants -> ints, or None."""
    try:
        return [[int(x, 16) % p for x in r] for r in rows]
    except (TypeError, ValueError):
        return None


def lin_of(rows, t, p):
    """Affine dumps -> coefficient matrix over x[0..t), or None."""
    out = []
    for r in rows:
        if isinstance(r, str):
            out.append([0] * t)
            continue
        if "lin" not in r:
            return None
        row = [0] * t
        for k, v in r["lin"].items():
            m = re.match(r"x\[(\d+)\]\[0\]$", k)
            if m:
                row[int(m.group(1))] = int(v, 16)
            elif k not in ("", "1"):
                return None
        out.append(row)
    return out


def c09(ctx):
    from math import gcd
    R = ref.load()
    # linear layers
    jobs = [Job("misc::linear_p2", f, (t,), t=t, f=f, what="linear") for f in ALL for t in P2_T]
    for n, (f, t) in ref.P2_INST.items():
        jobs.append(Job("inst_p2::%s::internal" % n, "", (t, ref.degree(f)), cost=2 + t * t / 20, t=t, f=f, what="internal", inst=n))
    for n, (f, t) in ref.POSEIDON_INST.items():
        jobs.append(Job("inst_poseidon::%s::matrix" % n, "", (t, ref.degree(f)), cost=2 + t ** 3 / 100, t=t, f=f, what="matrix", inst=n))
    res = ctx.run("dbg", jobs)
    for j in jobs:
        r, t, f, what = res.get(j.id), j.meta["t"], j.meta["f"], j.meta["what"]
        p = ref.P[f]
        if r is None or r["result"] != "returned":
            ctx.undecided(j, r["why"] if r else "not analysed")
            continue
        d = dumps(r)
        ms = {}
        if what == "linear":
            ms["external matrix of size %d over %s" % (t, f)] = lin_of(d["external"], t, p) if isinstance(d.get("external"), list) else None
        elif what == "internal":
            ms["internal matrix of " + j.meta["inst"]] = mat_of(d.get("internal"), p)
        else:
            ms["matrix of " + j.meta["inst"]] = mat_of(d.get("matrix"), p)
            ms["matrix of %s (plain path)" % j.meta["inst"]] = mat_of(d.get("plain matrix"), p)
        for k, m in ms.items():
            if m is None or len(m) != t or any(len(x) != t for x in m):
                ctx.undecided(j, k + ": not a constant square matrix")
                continue
            rk = ref.rank(m, p)
            if rk < t:
                ctx.violation("dbg", j, {"linear": "zkhash::poseidon2::poseidon2::Poseidon2::matmul_external", "internal": "zkhash::poseidon2::poseidon2::Poseidon2::matmul_internal"}.get(what, "zkhash::poseidon::poseidon::Poseidon matrix multiplication"), "singular", "%s has rank %d of %d: two states share an image" % (k, rk, t))
            else:
                ctx.ok(j, r, 1, "%s: rank %d" % (k, rk))
    # power maps: exponent applied by each shipped (field, size, degree)
    todo = []
    dj = [Job("%s::%s::dump" % (m, n), cost=1 + t ** 3 / 300, f=f, t=t, inst=n, m=m) for m, tb in (("inst_p2", ref.P2_INST), ("inst_poseidon", ref.POSEIDON_INST), ("inst_neptune", ref.NEPTUNE_INST)) for n, (f, t) in tb.items()]
    res = ctx.run("dbg", dj)
    degs = set()
    for j in dj:
        r = res.get(j.id)
        par = dumps(r).get("params") if r and r["result"] == "returned" else None
        deg = par.get("d") if isinstance(par, dict) and isinstance(par.get("d"), int) else None
        if deg is None:
            deg = ref.degree(j.meta["f"])
            ctx.undecided(j, "degree not readable")
        elif gcd(deg, ref.P[j.meta["f"]] - 1) != 1:
            ctx.violation("dbg", j, j.meta["inst"], "degree", "degree %d is not coprime to p - 1: the power map is not injective" % deg)
        else:
            ctx.ok(j, r, 1, "%s: gcd(%d, p-1) = 1" % (j.meta["inst"], deg))
        if j.meta["m"] != "inst_neptune":
            degs.add(("sbox_p2" if j.meta["m"] == "inst_p2" else "sbox_poseidon", j.meta["f"], j.meta["t"], deg))
    first = [Job("misc::" + e, f, (t, d, d, k), cost=2) for e, f, t, d in sorted(degs) for k in (0, 1)]
    res = ctx.run("dbg", first)
    for j in first:
        r = res.get(j.id)
        if r and r["result"] == "returned" and all(o["verdict"] in ("proved", "identity") for o in r["obl"]):
            ctx.ok(j, r, len(r["obl"]))
            continue
        if r is None or r["result"] != "returned" or not any(o["verdict"] == "violated" for o in r["obl"]):
            ctx.undecided(j, r["why"] if r else "not analysed")
            continue
        t, d, _, k = j.args
        alt = [Job(j.entry, j.types, (t, d, e, k), cost=2) for e in range(1, 17) if e != d]
        ra = ctx.run("dbg", alt)
        hit = [a for a in alt if ra.get(a.id) and ra[a.id]["result"] == "returned" and all(o["verdict"] in ("proved", "identity") for o in ra[a.id]["obl"])]
        if hit and gcd(hit[0].args[2], ref.P[j.types] - 1) != 1:
            ctx.violation("dbg", j, "S-box", "power map", "degree %d is evaluated as x^%d, which is not injective" % (d, hit[0].args[2]))
        else:
            ctx.undecided(j, "the power map differs from its specification (see C01/C03)")
    # GMiMC and the external rounds of Neptune: explicit inverse
    jobs = [Job("gmimc::inverse", f, (t, d, r), cost=1 + t * r / 20) for f in GB for t in (2, 3, 4, 5, 8, 12, 16) for d in (3, 5, 7) for r in (1, 2, t + 1, 2 * t + 3)]
    sweep(ctx, jobs, "zkhash::gmimc::gmimc::Gmimc::permutation")
    jobs = [Job("neptune::inverse", f, (t, rf), cost=2) for f in ALL for t in (4, 8) for rf in (0, 2, 4, 6)]
    sweep(ctx, jobs, "zkhash::neptune::neptune::Neptune::permutation (external rounds)")


def c10(ctx):
    for cfg in ("dbg", "rel", "asm"):
        jobs = [Job("misc::consts", f) for f in ALL]
        res = ctx.run(cfg, jobs)
        for j in jobs:
            f, r = j.types, res.get(j.id)
            if r is None or r["result"] != "returned":
                ctx.undecided(j, "%s: %s" % (cfg, r["why"] if r else "not analysed"))
                continue
            d = dumps(r)
            p = ref.P[f]
            try:
                limbs = d["modulus"]
                limbs = list(limbs.values())[0] if isinstance(limbs, dict) else limbs
                mod = sum(int(x) << (64 * i) for i, x in enumerate(limbs))
            except Exception:
                ctx.undecided(j, "modulus not readable")
                continue
            where = "zkhash::fields (%s, configuration %s)" % (f, cfg)
            if mod != p:
                ctx.violation(cfg, j, where, "modulus", "modulus of %s is 0x%x instead of 0x%x" % (f, mod, p))
                continue
            try:
                g, root, s, bits = int(d["generator"], 16), int(d["root"], 16), int(d["adicity"]), int(d["bits"])
            except Exception:
                ctx.undecided(j, "constants not readable")
                continue
            bad = [q for q in ref.FACTORS[f] if pow(g, (p - 1) // q, p) == 1]
            two = ((p - 1) & -(p - 1)).bit_length() - 1
            if bad:
                ctx.violation(cfg, j, where, "generator", "declared generator 0x%x has order dividing (p-1)/%d" % (g, bad[0]))
            elif s != two or pow(root, 1 << s, p) != 1 or (s and pow(root, 1 << (s - 1), p) == 1):
                ctx.violation(cfg, j, where, "root of unity", "two-adicity %d / root 0x%x do not fit p - 1 = 2^%d * odd" % (s, root, two))
            elif bits != p.bit_length():
                ctx.violation(cfg, j, where, "bit size", "declared bit size %d instead of %d" % (bits, p.bit_length()))
            elif d.get("one") != "0x1":
                ctx.violation(cfg, j, where, "one", "one is %s" % d.get("one"))
            else:
                ctx.ok(j, r, 5, "%s [%s]: modulus 0x%x, generator %d of full order, 2-adicity %d" % (f, cfg, p, g, s))


def tree_sizes(ctx, root, types="goldilocks", cap=70000):
    """Numbers of leaves: all small ones, both sides of every power of two up
    to cap, and both sides of every literal of the tree code (as a number of
    leaves and as a number of levels)."""
    lit = harvest(ctx, [root], ["merkle_tree"], 1, 70000, types)
    ns = set(range(1, 41)) | {47, 48, 49, 95, 96, 97, 1000, 3000}
    if ctx.thorough:
        ns |= set(range(1, 300)) | {600, 1536, 1537, 5000, 40000}
    for k in range(4, 17):
        ns |= {2 ** k - 1, 2 ** k, 2 ** k + 1, 2 ** k + 2} if k <= 12 or ctx.thorough or k == 16 else {2 ** k + 1}
    if not ctx.thorough:
        ns -= {2 ** 16 - 1, 2 ** 16, 2 ** 16 + 2}
    for c in lit:
        ns |= {c - 1, c, c + 1, c + 2, 2 * c + 1}
        if 2 <= c <= 16:
            ns |= {2 ** c - 1, 2 ** c + 1, 2 ** c + 2} if c <= 13 else {2 ** c + 1}
    return sorted(n for n in ns if 1 <= n <= cap)


def small_digest(ctx, root, above):
    """Leaf counts beyond the cap of full-width digests."""
    ns = {2049, 4096, 4097, 8193, 16385, 32769} | {n for n in tree_sizes(ctx, root, cap=33000) if n > 5000 and n not in (2 ** 13 + 1, 2 ** 14 + 1)}
    return sorted(n for n in ns if n > above)


def tree_patterns(ctx, root):
    """Leaf counts for leaf sets with equal, default and repeating leaves."""
    ns = {2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33} | {n for n in tree_sizes(ctx, root, cap=300) if n > 40 and n % 2}
    return sorted(ns)


TREES = {
    "fp": ("zkhash::merkle_tree::merkle_tree_fp::MerkleTree::accumulate", "pure::tree_fp"),
    "orchard": ("zkhash::merkle_tree::merkle_tree_orchard::MerkleTree::accumulate", "pure::tree_orchard"),
    "sapling": ("zkhash::merkle_tree::merkle_tree_sapling::MerkleTree::accumulate", "pure::tree_sapling"),
    "f2": ("zkhash::merkle_tree::merkle_tree_f2::MerkleTree::accumulate", "pure::tree_f2"),
}


def c11(ctx):
    jobs = []
    for k, entry, types in (("fp", "merkle::fp", ("bls", "goldilocks")), ("orchard", "merkle::orchard_flat", ("",)), ("sapling", "merkle::sapling_flat", ("",)), ("f2", "merkle::f2", ("",))):
        anchor, root = TREES[k]
        cap = 70000 if k != "f2" else 4100 if ctx.thorough else 1030
        for n in tree_sizes(ctx, root, cap=cap):
            for ty in types:
                if ty == "goldilocks" and n > 5000 and not ctx.thorough:
                    continue
                jobs.append(Job(entry, ty, (n,), cost=tree_cost(k, n), panics="all", anchor=anchor))
        if k == "f2":
            jobs += [Job("merkle::f2_s", "", (n,), cost=1 + n / 60, panics="all", anchor=anchor) for n in small_digest(ctx, root, cap)]
        jobs += [Job(entry + "_p", ty, (n, p), cost=tree_cost(k, n), panics="all", anchor=anchor) for ty in types[:1] for n in tree_patterns(ctx, root) for p in range(8)]
    sweep(ctx, jobs, "accumulate")


def c12(ctx):
    jobs = []
    for k in ("orchard", "sapling"):
        anchor, root = TREES[k]
        jobs += [Job("merkle::" + k, "", (n,), cost=tree_cost(k, n), panics="all", anchor=anchor) for n in tree_sizes(ctx, root)]
        jobs += [Job("merkle::%s_p" % k, "", (n, p), cost=tree_cost(k, n), panics="all", anchor=anchor) for n in tree_patterns(ctx, root) for p in range(8)]
    sweep(ctx, jobs, "accumulate")


def tree_cost(k, n):
    return 1 + n / (20 if k == "f2" else 200)


def c13(ctx):
    jobs = []
    for k, ty in (("fp", "bls"), ("orchard", ""), ("sapling", ""), ("f2", "")):
        anchor, root = TREES[k]
        ns = (1, 2, 3, 4, 5, 7, 8, 9, 16, 17) if not ctx.thorough else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64, 65)
        pairs = {(a, b) for a in ns for b in ns}
        for b in tree_sizes(ctx, root, cap=140):
            pairs |= {(3, b), (b, 2)}
        if k != "f2":
            for b in tree_sizes(ctx, root, cap=70000 if ctx.thorough else 5000):
                if b > 140:
                    pairs |= {(b, 3), (3, b)}
        if k == "f2":
            pairs = {(a, b) for a, b in pairs if a + b < (70 if not ctx.thorough else 300)} | {(257, 3), (3, 257), (513, 5)}
        jobs += [Job("merkle::again_" + k, ty, (a, b), cost=tree_cost(k, 3 * (a + b)), panics="all", anchor=anchor) for a, b in sorted(pairs)]
        # long histories on one object
        lit = harvest(ctx, [root], ["merkle_tree"], 1, 5000)
        calls = {40, 70} | {c + 2 for c in lit if k != "f2" or c <= 600} | ({300} if k == "f2" else {300, 1030})
        for n in (1, 2, 3, 5):
            for c in sorted(calls):
                if n == 3 or c <= 70:
                    jobs.append(Job("merkle::many_" + k, ty, (n, c), cost=tree_cost(k, 4 * n * c), panics="all", anchor=anchor))
    sweep(ctx, jobs, "accumulate")


def c14(ctx):
    jobs = []
    rs = ((2, 1), (4, 2), (6, 3)) if not ctx.thorough else ((2, 1), (0, 1), (2, 2), (4, 2), (4, 5), (6, 3), (8, 6))
    for d in (3, 5, 7):
        for f in ALL:
            for r in rs if f in GB else rs[:1]:
                jobs.append(Job("misc::compress_p2", f, (d, *r), cost=2, anchor="zkhash::poseidon2::poseidon2::Poseidon2::compress"))
                jobs.append(Job("misc::compress_poseidon", f, (d, *r), cost=20, anchor="zkhash::poseidon::poseidon::Poseidon::compress"))
                jobs.append(Job("misc::compress_poseidon_k", f, (d, *r), cost=2, anchor="zkhash::poseidon::poseidon::Poseidon::compress"))
                jobs.append(Job("misc::compress_neptune", f, (d, *r), cost=2, anchor="zkhash::neptune::neptune::Neptune::compress"))
            for r in (3, 4, 5, 6, 9) if f in GB else (7,):
                jobs.append(Job("misc::compress_gmimc", f, (d, r), cost=1, anchor="zkhash::gmimc::gmimc::Gmimc::compress"))
    for f in GB:
        jobs.append(Job("misc::compress_p2", f, (11, 4, 2), cost=2, anchor="zkhash::poseidon2::poseidon2::Poseidon2::compress"))
        jobs.append(Job("misc::compress_p2", f, (ref.degree(f), 8, 56), cost=3, anchor="zkhash::poseidon2::poseidon2::Poseidon2::compress"))
        jobs.append(Job("misc::compress_neptune", f, (ref.degree(f), 6, 69), cost=6, anchor="zkhash::neptune::neptune::Neptune::compress"))
        jobs.append(Job("misc::compress_gmimc", f, (ref.degree(f), 226), cost=4, anchor="zkhash::gmimc::gmimc::Gmimc::compress"))
    sweep(ctx, jobs, "compress")


# ---- effects -----------------------------------------------------------------
PURE_F = ["p2", "p2_new", "p2_params", "p2_helpers", "poseidon", "poseidon_new", "poseidon_params", "poseidon_helpers", "gmimc", "gmimc_new", "gmimc_get", "neptune", "neptune_new", "utils", "tree_fp", "tree_p2"]
PURE_0 = ["tree_orchard", "tree_sapling", "tree_f2"]


def source_class(path):
    """Where the effect comes from: the random number crates, an area of the
    standard library, or another crate."""
    steps = path.split(" -> ")
    if any(re.search(r"\b(rand|rand_core|rand_chacha|getrandom)::", re.sub(r"<[^<>]*>", "", x)) or re.match(r"<?(rand|rand_core|rand_chacha|getrandom)::", x) for x in steps):
        return "rand"
    for x in steps:
        m = re.match(r"<?std::(env|time|thread|fs|io|net|process|os|sys|random|hash|collections)\b", x)
        if m:
            return "std::" + m.group(1)
    for x in steps:
        k = re.match(r"[<&( ]*(\w+)", x)
        k = k.group(1) if k else "?"
        if k not in ("zkhash", "probe", "core", "alloc", "std", "ark_ff", "ark_std", "lazy_static", "spin") and "::" in x:
            return k
    return "static"


def last_own(path):
    own = [s for s in path.split(" -> ") if re.match(r"[<&( ]*zkhash::(?!ark_ff)", s)]
    return own[-1] if own else path.split(" -> ")[0]


def sinks(ctx, r, cfg):
    out = []
    for s in r["sinks"]:
        if s["kind"] == "address" and cfg != "rel":
            continue  # alignment checks of debug builds
        if s["kind"] in ("opaque", "unresolved"):
            continue
        out.append(s)
    return out


def control(ctx, cfg):
    j = Job("@effects", "", ["pure::control"])
    r = ctx.run(cfg, [j]).get(j.id)
    if r is None or r["result"] != "returned":
        ctx.undecided(j, "positive control not analysed")
        return
    kinds = {s["kind"] for s in r["sinks"]}
    need = {"static-cell", "thread-local", "static-mut", "foreign"}
    if not need <= kinds:
        raise RuntimeError("effect rules do not fire on the positive control: %s" % sorted(need - kinds))
    ctx.ok(j, r, len(need), "positive control: rules %s fire" % ", ".join(sorted(need)))


def c15(ctx):
    for cfg in ("dbg", "rel"):
        control(ctx, cfg)
        jobs = [Job("@effects", f, ["pure::" + k], root=k) for f in (ALL if cfg == "dbg" or ctx.thorough else GB) for k in PURE_F]
        jobs += [Job("@effects", "", ["pure::" + k], root=k) for k in PURE_0]
        res = ctx.run(cfg, jobs)
        seen = set()
        for j in jobs:
            r = res.get(j.id)
            if r is None or r["result"] != "returned":
                ctx.undecided(j, r["why"] if r else "not analysed")
                continue
            ss = sinks(ctx, r, cfg)
            for s in ss:
                own = last_own(s["path"])
                if (own, s["kind"]) in seen:
                    continue
                seen.add((own, s["kind"]))
                ctx.violation(cfg, j, own, s["kind"], "reaches %s (%s): %s" % (s["what"], s["kind"], s["path"][:900]))
            if not ss:
                ctx.ok(j, r, 1, None, functions=r["nfunctions"], calls=r["calls"])
    twice(ctx)


def twice(ctx):
    jobs = []
    for f in GB:
        for t in P2_T if ctx.thorough else (2, 3, 4, 8, 12):
            jobs.append(Job("pure::twice_p2", f, (t, ref.degree(f), 4, 2), cost=2 + t, anchor="zkhash::poseidon2::poseidon2::Poseidon2"))
        for t in (2, 3):
            jobs.append(Job("pure::twice_poseidon", f, (t, ref.degree(f), 2, 2), cost=20, anchor="zkhash::poseidon::poseidon::Poseidon"))
        for t in (2, 3, 4, 8):
            jobs.append(Job("pure::twice_gmimc", f, (t, ref.degree(f), 2 * t + 1), cost=2, anchor="zkhash::gmimc::gmimc::Gmimc"))
        for t in (2, 4, 8, 12):
            jobs.append(Job("pure::twice_neptune", f, (t, ref.degree(f), 2, 2), cost=3, anchor="zkhash::neptune::neptune::Neptune"))
    # unusual round counts: literals of the code and large ones
    lit = [v for v in around(harvest(ctx, ["pure::p2", "pure::p2_params", "pure::twice_p2"], ["poseidon2::poseidon2::", "poseidon2_params::"], 5, 130), 5, 132)]
    for rp in sorted(set(lit) | {12, 13, 56, 57, 83, 100}):
        jobs.append(Job("pure::twice_p2", "goldilocks", (2, 3, 2, rp), cost=3, anchor="zkhash::poseidon2::poseidon2::Poseidon2"))
    for rf in sorted({v + v % 2 for v in lit} | {8, 14, 100}):
        jobs.append(Job("pure::twice_p2", "goldilocks", (2, 3, rf, 1), cost=3, anchor="zkhash::poseidon2::poseidon2::Poseidon2"))
    lit = [v for v in around(harvest(ctx, ["pure::poseidon", "pure::twice_poseidon"], ["poseidon::poseidon::", "poseidon_params::"], 5, 130), 5, 132)]
    for rp in sorted(set(lit) | {12, 13, 56, 57}):
        jobs.append(Job("pure::twice_poseidon", "goldilocks", (2, 3, 2, rp), cost=9, anchor="zkhash::poseidon::poseidon::Poseidon"))
    for rf in sorted({v + v % 2 for v in lit} | {8, 14}):
        jobs.append(Job("pure::twice_poseidon", "goldilocks", (2, 3, rf, 1), cost=9, anchor="zkhash::poseidon::poseidon::Poseidon"))
    lit = [v for v in around(harvest(ctx, ["pure::gmimc", "pure::gmimc_params", "pure::twice_gmimc"], ["gmimc::gmimc::", "gmimc_params::"], 5, 400), 5, 402)]
    for r in sorted(set(lit) | {15, 16, 57, 200}):
        jobs.append(Job("pure::twice_gmimc", "goldilocks", (2, 3, r), cost=3, anchor="zkhash::gmimc::gmimc::Gmimc"))
    lit = [v for v in around(harvest(ctx, ["pure::neptune", "pure::neptune_params", "pure::twice_neptune"], ["neptune::neptune::", "neptune_params::"], 5, 130), 5, 132)]
    for rp in sorted(set(lit) | {12, 13, 56, 57, 83}):
        jobs.append(Job("pure::twice_neptune", "goldilocks", (2, 3, 2, rp), cost=4, anchor="zkhash::neptune::neptune::Neptune"))
    for rf in sorted({v + v % 2 for v in lit} | {8, 14}):
        jobs.append(Job("pure::twice_neptune", "goldilocks", (2, 3, rf, 1), cost=4, anchor="zkhash::neptune::neptune::Neptune"))
    # long histories on one object; longer than any counter limit in the code
    for k, ts, mod, a in (("p2", (2, 3, 4, 8), "poseidon2::", "zkhash::poseidon2::poseidon2::Poseidon2"), ("poseidon", (2, 3, 4), "poseidon::", "zkhash::poseidon::poseidon::Poseidon"), ("gmimc", (2, 3, 4, 8), "gmimc::", "zkhash::gmimc::gmimc::Gmimc"), ("neptune", (2, 4, 8), "neptune::", "zkhash::neptune::neptune::Neptune")):
        lit = harvest(ctx, ["pure::" + k], ["zkhash::" + mod], 1, 1100)
        for t in ts:
            for c in sorted({70} | {c + 2 for c in lit if c > 68} | ({300} if t == 3 else set())):
                if c <= 300 or t in (3, 4):
                    jobs.append(Job("pure::many_" + k, "goldilocks", (t, 7, c), cost=2 + t * c / 100, anchor=a))
    sweep(ctx, jobs, "hash object")


def c16(ctx):
    for cfg in ("dbg", "rel"):
        control(ctx, cfg)
        jobs = []
        for m, tb in (("inst_p2", ref.P2_INST), ("inst_poseidon", ref.POSEIDON_INST), ("inst_gmimc", ref.GMIMC_INST), ("inst_neptune", ref.NEPTUNE_INST)):
            jobs += [Job("@effects", "", ["%s::%s::build" % (m, n)], inst=n) for n in tb]
        res = ctx.run(cfg, jobs)
        for j in jobs:
            r = res.get(j.id)
            if r is None or r["result"] != "returned":
                ctx.undecided(j, r["why"] if r else "not analysed")
                continue
            cl = {}
            for s in sinks(ctx, r, cfg):
                c = source_class(s["path"]) if s["kind"] != "address" else "address"
                cl.setdefault(c, s)
            for c, s in cl.items():
                ctx.violation(cfg, j, last_own(s["path"]), c, "building %s reaches %s (%s) through %s: %s" % (j.meta["inst"], s["what"], s["kind"], c, s["path"][:700]), key="%s via %s" % (j.meta["inst"], c))
            if not cl:
                ctx.ok(j, r, 1, None, functions=r["nfunctions"], calls=r["calls"])


# ---- rejection and acceptance --------------------------------------------------
def c17(ctx):
    jobs = []
    A = {"p2": "zkhash::poseidon2::poseidon2_params::Poseidon2Params::new", "poseidon": "zkhash::poseidon::poseidon_params::PoseidonParams::new", "gmimc": "zkhash::gmimc::gmimc_params::GmimcParams::new", "neptune": "zkhash::neptune::neptune_params::NeptuneParams::new"}
    X = dict(expect="panics")
    lit = harvest(ctx, ["pure::p2_params", "pure::poseidon_params", "pure::gmimc_params", "pure::neptune_params"], ["params::"], 0, 1100)
    for f in GB:
        for t in (2, 3, 4, 8, 12, 24):
            for k in (0, 1):
                jobs.append(Job("misc::reject_p2", f, (k, t), anchor=A["p2"], **X))
                jobs.append(Job("misc::reject_poseidon", f, (k, t, t), anchor=A["poseidon"], cost=2, **X)) if t <= 3 else None
        for t in (2, 3):
            for rows in (1, t - 1, t + 1, t + 2, 0):
                if rows != t:
                    jobs.append(Job("misc::reject_poseidon", f, (2, t, rows), anchor=A["poseidon"], **X))
        for t in (2, 3, 4, 8):
            jobs.append(Job("misc::reject_gmimc", f, (t,), anchor=A["gmimc"], **X))
        for k in (0, 1, 2):
            jobs.append(Job("misc::reject_neptune", f, (k,), anchor=A["neptune"], **X))
        # concrete degrees and round numbers
        dbad = (0, 1, 2, 4, 6, 8, 9, 10, 11, 12, 13, 15, 17, 25)
        for t in (2, 3, 4, 8, 12, 16, 20, 24):
            for d in dbad:
                for rp in (1, 2, 22) if t == 3 else (3,):
                    if d != 11:
                        jobs.append(Job("misc::reject_p2_k", f, (t, d, 4, rp), anchor=A["p2"], **X))
                    if t <= 4:
                        jobs.append(Job("misc::reject_poseidon_k", f, (t, d, 4, rp), anchor=A["poseidon"], cost=2, **X))
                    jobs.append(Job("misc::reject_gmimc_k", f, (t, d, rp), anchor=A["gmimc"], **X))
                    jobs.append(Job("misc::reject_neptune_k", f, (t, d, 4, rp), anchor=A["neptune"], **X))
            for rf in (1, 3, 5, 7, 9, 13):
                for d, rp in ((3, 1), (5, 1), (7, 1), (5, 0), (5, 2), (7, 22), (11, 4)) if t in (3, 4) else ((5, 2), (7, 3)):
                    jobs.append(Job("misc::reject_p2_k", f, (t, d, rf, rp), anchor=A["p2"], **X))
                    if d != 11 and t <= 4 and rp:
                        jobs.append(Job("misc::reject_poseidon_k", f, (t, d, rf, rp), anchor=A["poseidon"], cost=2, **X))
                    if d != 11 and t != 3:
                        jobs.append(Job("misc::reject_neptune_k", f, (t, d, rf, rp), anchor=A["neptune"], **X))
            for rows in sorted({0, 1, t // 2, t - 1, t + 1, t + 2, 2 * t} - {t}):
                if rows <= 24:
                    for rf, rp in ((2, 1), (4, 3)) if t <= 4 else ((2, 2),):
                        jobs.append(Job("misc::reject_rows_k", f, (t, rows, rf, rp), anchor=A["poseidon"], cost=2 + t ** 3 / 300, **X))
        # both sides of every literal of the constructors
        for v in around(lit, 0, 1100):
            if v not in (3, 5, 7):
                if v != 11:
                    jobs.append(Job("misc::reject_p2_k", f, (3, v, 4, 2), anchor=A["p2"], **X))
                jobs.append(Job("misc::reject_poseidon_k", f, (3, v, 4, 2), anchor=A["poseidon"], **X))
                jobs.append(Job("misc::reject_gmimc_k", f, (3, v, 4), anchor=A["gmimc"], **X))
                jobs.append(Job("misc::reject_neptune_k", f, (4, v, 4, 2), anchor=A["neptune"], **X))
            if v % 2:
                jobs.append(Job("misc::reject_p2_k", f, (3, 5, v, 2), cost=1 + v / 100, anchor=A["p2"], **X))
                jobs.append(Job("misc::reject_poseidon_k", f, (3, 5, v, 2), cost=1 + v / 100, anchor=A["poseidon"], **X))
                jobs.append(Job("misc::reject_neptune_k", f, (4, 5, v, 2), cost=1 + v / 100, anchor=A["neptune"], **X))
                if v <= 300:
                    jobs.append(Job("misc::reject_neptune_k", f, (v, 5, 2, 2), cost=1 + v * v / 1000, anchor=A["neptune"], **X))
            if v <= 40 and v != 3:
                jobs.append(Job("misc::reject_rows_k", f, (3, v, 2, 2), cost=2 + v ** 3 / 1000, anchor=A["poseidon"], **X))
        for t in (33, 63, 65, 101, 127, 129, 201, 255, 257):
            jobs.append(Job("misc::reject_neptune_k", f, (t, 5, 2, 1), cost=1 + t * t / 1000, anchor=A["neptune"], **X))
        for t in (1, 3, 5, 7, 9, 11, 13, 15, 17, 25):
            for d, rf, rp in ((5, 2, 1), (3, 4, 2), (7, 0, 1)):
                jobs.append(Job("misc::reject_neptune_k", f, (t, d, rf, rp), anchor=A["neptune"], **X))
        # input lengths
        for t in P2_T:
            for n in {0, 1, t - 1, t + 1, t + 2, 2 * t, t // 2} - {t}:
                jobs.append(Job("misc::length_p2", f, (t, n), anchor="zkhash::poseidon2::poseidon2::Poseidon2::permutation", **X))
        for t in (0, 1, 5, 6, 7, 9, 10, 11, 13, 14, 15, 17, 18, 19, 21, 22, 23, 25, 28, 32):
            jobs.append(Job("misc::length_p2", f, (t, t), anchor="zkhash::poseidon2::poseidon2::Poseidon2::permutation (unsupported size %d)" % t, **X))
        for t in (2, 3, 4, 5, 8):
            for n in {0, 1, t - 1, t + 1, t + 2, 2 * t} - {t}:
                for plain in (0, 1):
                    jobs.append(Job("misc::length_poseidon", f, (t, n, plain), cost=3, anchor="zkhash::poseidon::poseidon::Poseidon::" + ("permutation", "permutation_not_opt")[plain], **X))
        for t in (2, 3, 4, 5, 8):
            for n in {0, 1, t - 1, t + 1, t + 2, 2 * t} - {t}:
                for plain in (0, 1):
                    jobs.append(Job("misc::length_gmimc", f, (t, n, plain), anchor="zkhash::gmimc::gmimc::Gmimc::" + ("permutation", "permutation_not_opt")[plain], **X))
        for t in (2, 4, 6, 8, 12):
            for n in {0, 1, t - 2, t - 1, t + 1, t + 2, 2 * t} - {t}:
                jobs.append(Job("misc::length_neptune", f, (t, n), anchor="zkhash::neptune::neptune::Neptune::permutation", **X))
        # every other length at once
        for t in P2_T:
            jobs.append(Job("misc::anylen_p2", f, (t,), anchor="zkhash::poseidon2::poseidon2::Poseidon2::permutation", **X))
            for plain in (0, 1):
                jobs.append(Job("misc::anylen_gmimc", f, (t, plain), anchor="zkhash::gmimc::gmimc::Gmimc::" + ("permutation", "permutation_not_opt")[plain], **X))
                if t <= 8:
                    jobs.append(Job("misc::anylen_poseidon", f, (t, plain), cost=3, anchor="zkhash::poseidon::poseidon::Poseidon::" + ("permutation", "permutation_not_opt")[plain], **X))
            if t % 2 == 0:
                jobs.append(Job("misc::anylen_neptune", f, (t,), anchor="zkhash::neptune::neptune::Neptune::permutation", **X))
        jobs.append(Job("merkle::empty_fp", f, (), anchor=TREES["fp"][0], **X))
    for k in ("orchard", "sapling", "f2"):
        jobs.append(Job("merkle::empty_" + k, "", (), anchor=TREES[k][0], **X))
    for cfg in ("dbg", "rel"):
        sweep(ctx, jobs, "constructor", cfg=cfg)


def c18(ctx):
    A = dict(values=False)
    jobs = [Job("p2::perm", f, a, cost=1 + a[0] * (a[2] + a[3]) / 20, panics="all", anchor="Poseidon2Params::new / Poseidon2::permutation") for f, *a in p2_sizes(ctx)]
    sym, con = poseidon_sizes(ctx, (0,))
    lim = 3
    for e in ("plain", "opt"):
        jobs += [Job("poseidon::" + e, f, a, cost=6 ** a[0] * (1 + a[3] / 4), anchor="Poseidon::" + e) for f, *a in sym if a[0] <= lim and a[3] < 10]
        jobs += [Job("poseidon::%s_k" % e, f, a, cost=2 + a[0] ** 3 * (a[3] + 2) / 200, anchor="Poseidon::" + e, panics="all") for f, *a in con if a[0] <= 12 or ctx.thorough]
    jobs += [Job("gmimc::perm", f, a, cost=1 + a[0] * a[2] / 20, panics="all", anchor="Gmimc::permutation / permutation_not_opt") for f, *a in gmimc_sizes(ctx)]
    jobs += [Job("neptune::perm", f, a, cost=1 + a[0] ** 2 * (a[2] + a[3]) / 40, panics="all", anchor="Neptune::permutation") for f, *a in neptune_sizes(ctx)]
    for d in (3, 5, 7):
        jobs.append(Job("misc::compress_p2", "bls", (d, 4, 2), panics="all", anchor="Poseidon2::compress"))
        jobs.append(Job("misc::compress_poseidon", "bls", (d, 2, 2), cost=20, anchor="Poseidon::compress"))
        jobs.append(Job("misc::compress_poseidon_k", "bls", (d, 4, 2), panics="all", anchor="Poseidon::compress"))
        jobs.append(Job("misc::compress_neptune", "bls", (d, 2, 2), panics="all", anchor="Neptune::compress"))
        jobs.append(Job("misc::compress_gmimc", "bls", (d, 4), panics="all", anchor="Gmimc::compress"))
    jobs.append(Job("misc::compress_p2", "bls", (11, 4, 2), panics="all", anchor="Poseidon2::compress"))
    for k, e, ty in (("fp", "merkle::fp", "bls"), ("orchard", "merkle::orchard", ""), ("sapling", "merkle::sapling", ""), ("f2", "merkle::f2", "")):
        anchor, root = TREES[k]
        jobs += [Job(e, ty, (n,), cost=tree_cost(k, n), panics="all", anchor=anchor) for n in tree_sizes(ctx, root, cap=600 if k == "f2" else 70000)]
        if k == "f2":
            jobs += [Job("merkle::f2_s", "", (n,), cost=1 + n / 60, panics="all", anchor=anchor) for n in small_digest(ctx, root, 600)]
        jobs += [Job(e + "_p", ty, (n, p), cost=tree_cost(k, n), panics="all", anchor=anchor) for n in (2, 3, 5, 9) for p in range(8)]
    for t in P2_T:
        jobs += [Job("p2::perm_p", "goldilocks", (t, 7, 4, 3, tab, inp), cost=1 + t, panics="all", anchor="Poseidon2::permutation") for tab, inp in SPECIAL]
    jobs += [Job("poseidon::perm_p", "goldilocks", (t, 7, 4, 3, tab, inp, w), cost=1 + t, panics="all", anchor="Poseidon::permutation") for t in (2, 3, 4, 8) for tab, inp in SPECIAL for w in (0, 1)]
    jobs += [Job("gmimc::perm_p", "goldilocks", (t, 7, 2 * t + 1, inp), cost=1 + t, panics="all", anchor="Gmimc::permutation") for t in (2, 3, 8, 9, 12) for inp in range(9)]
    jobs += [Job("neptune::perm_p", "goldilocks", (t, 7, 4, 3, inp), cost=1 + t, panics="all", anchor="Neptune::permutation") for t in (2, 4, 6, 8) for inp in range(9)]
    R = ref.load()
    for m, tb in (("inst_p2", ref.P2_INST), ("inst_poseidon", ref.POSEIDON_INST)):
        for n, (f, t) in tb.items():
            e = R[n]
            if m == "inst_poseidon":
                jobs.append(Job("inst_poseidon::%s::opt" % n, "", (t,), cost=2 + t ** 3 * e["rp"] / 200, anchor=n))
            else:
                jobs.append(Job("inst_p2::%s::perm" % n, "", (e["t"], e["d"], e["rf"], e["rp"]), cost=1 + t * t * e["rp"] / 3000, anchor=n))
    jobs += [Job("inst_gmimc::%s::dump" % n, "", (), cost=2 + t, anchor=n) for n, (f, t) in ref.GMIMC_INST.items()]
    jobs += [Job("inst_neptune::%s::dump" % n, "", (), cost=2 + t, anchor=n) for n, (f, t) in ref.NEPTUNE_INST.items()]
    sweep(ctx, jobs, "permutation", values=False)


def c19(ctx):
    jobs = []
    inv, tr = "zkhash::utils::mat_inverse", "zkhash::utils::mat_transpose"
    for f in GB:
        for n in (1, 2, 3, 4) + ((5,) if ctx.thorough else ()):
            jobs.append(Job("misc::inverse", f, (n,), cost=5 ** n / 5, anchor=inv))
            jobs.append(Job("misc::inverse_good", f, (n,), cost=5 ** n / 5, anchor=inv))
        for n in range(1, 7):
            jobs.append(Job("misc::products", f, (n,), cost=1 + n ** 3 / 20, anchor="mat_vec_mul / mat_mat_mul"))
        for n in range(1, 9 if not ctx.thorough else 14):
            for m in range(1, 9 if not ctx.thorough else 14):
                jobs.append(Job("misc::transpose", f, (n, m), anchor=tr))
    for f in ALL:
        jobs.append(Job("misc::inverse", f, (3,), cost=20, anchor=inv))
        jobs.append(Job("misc::inverse_k", f, (3, 15232), expect="either", anchor=inv))
        for n in (8, 12, 24):
            jobs.append(Job("misc::inverse_given", f, (n,), cost=n ** 3 / 200, anchor=inv))
    # small concrete matrices, singular and non-singular, with zero pivots
    rnd = ctx.rng(19)
    for c in range(81):
        jobs.append(Job("misc::inverse_k", "goldilocks", (2, c), expect="either", anchor=inv))
    for c in rnd.sample(range(3 ** 9), 300 if not ctx.thorough else 4000):
        jobs.append(Job("misc::inverse_k", "goldilocks", (3, c), expect="either", anchor=inv))
    for c in (rnd.randrange(3 ** 16) for _ in range(100 if not ctx.thorough else 1500)):
        jobs.append(Job("misc::inverse_k", "goldilocks", (4, c), expect="either", anchor=inv))
    # structured matrices, and both sides of every literal of the helpers
    lit = harvest(ctx, ["pure::utils", "pure::poseidon_helpers", "pure::p2_helpers"], ["utils::mat", "mat_vec_mul", "mat_mat_mul"], 1, 300)
    for n in sorted({1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20, 24} | set(around(lit, 1, 40))):
        for k in range(16):
            x = {} if k in (0, 7, 8, 9) else {"expect": "either"}
            jobs.append(Job("misc::inverse_pat", GB[k % 2], (n, k), cost=n ** 3 / 200, anchor=inv, **x))
        if n >= 7:
            jobs.append(Job("misc::products_k", "goldilocks", (n,), cost=1 + n ** 3 / 100, anchor="mat_vec_mul / mat_mat_mul"))
    for n in sorted({8, 12, 16, 17, 24, 33, 64, 65, 130} | set(around(lit, 8, 300))):
        for a in ((n, 1), (1, n), (n, 2), (2, n), (n, n + 1) if n < 40 else (3, n)):
            jobs.append(Job("misc::transpose", "goldilocks", a, cost=1 + a[0] * a[1] / 300, anchor=tr))
    sweep(ctx, jobs, "matrix helper")
    sweep(ctx, jobs if ctx.thorough else [j for j in jobs if j.args[0] <= 4], "matrix helper", cfg="rel")


def c20(ctx):
    jobs = []
    for t in P2_T:
        for d in (3, 5, 7, 11):
            for r in ((0, 0), (2, 1), (4, 3), (0, 2), (8, 22)):
                jobs.append(Job("p2::perm", "goldilocks", (t, d, *r), cost=1 + t * sum(r) / 10))
        jobs.append(Job("p2::perm", "bn", (t, 5, 4, 3), cost=1 + t))
    for t in (2, 3):
        for d in (3, 5, 7):
            jobs.append(Job("poseidon::plain", "bn", (t, d, 4, 2), cost=30))
            jobs.append(Job("poseidon::opt", "bn", (t, d, 2, 2), cost=30))
            jobs.append(Job("poseidon::equiv_rc", "bn", (t, d, 1, 3), cost=5))
            jobs.append(Job("poseidon::sparse", "bn", (t, d, 0, 3), cost=10))
    for t in (4, 8, 12, 24):
        jobs.append(Job("poseidon::opt_k", "goldilocks", (t, 7, 4, 3, 0), cost=2 + t ** 3 / 100))
        jobs.append(Job("poseidon::plain_k", "goldilocks", (t, 7, 4, 3, 1), cost=2 + t ** 3 / 100))
    for t in (1, 2, 3, 4, 5, 8, 12, 24):
        for r in (0, 1, 2, 3, 9, 27):
            jobs.append(Job("gmimc::perm_opt", "bn", (t, 5, r), cost=1 + t * r / 20))
            jobs.append(Job("gmimc::perm_plain", "bn", (t, 5, r), cost=1 + t * r / 20))
    for t in (2, 4, 6, 8, 12, 24):
        for r in ((0, 0), (2, 1), (4, 3), (0, 2)):
            jobs.append(Job("neptune::perm", "bn", (t, 5, *r), cost=1 + t * t / 20))
    for n in list(range(0, 20)) + [31, 32, 33, 64, 65]:
        for e, ty in (("fp", "bn"), ("orchard", ""), ("sapling", ""), ("f2", "")):
            jobs.append(Job("merkle::" + e, ty, (n,), cost=1 + n * n / 400))
    for k, ty in (("fp", "bn"), ("orchard", ""), ("sapling", ""), ("f2", "")):
        for n in tree_sizes(ctx, TREES[k][1], cap=4100 if k != "f2" else 300):
            if n > 65:
                jobs.append(Job("merkle::" + k, ty, (n,), cost=tree_cost(k, n)))
    jobs += [Job("merkle::f2_s", "", (n,), cost=1 + n / 60) for n in tree_sizes(ctx, "pure::tree_f2", cap=8200) if n > 300]
    # the literal-driven part of the size partitions, special tables and inputs
    seen = {(j.entry, j.args[:4]) for j in jobs}
    for f, t, d, rf, rp in p2_sizes(ctx):
        if f == "goldilocks" and d == 7 and t in (3, 8) and ("p2::perm", (t, d, rf, rp)) not in seen:
            jobs.append(Job("p2::perm", f, (t, d, rf, rp), cost=1 + t * (rf + rp) / 10))
    for f, t, d, r in gmimc_sizes(ctx):
        if f == "goldilocks" and d == 7 and t > 8 or f == "bls" and d == 5 and t == 8:
            jobs.append(Job("gmimc::perm", f, (t, d, r), cost=1 + t * r / 20))
    for f, t, d, rf, rp in neptune_sizes(ctx):
        if f == "goldilocks" and d == 7 and (t in (4, 8) or (rf, rp) == (2, 2)):
            jobs.append(Job("neptune::perm", f, (t, d, rf, rp), cost=1 + t * t * (rf + rp) / 40))
    for f, t, d, rf, rp, k in poseidon_sizes(ctx, (0,))[1]:
        if f == "goldilocks" and d == 7 and (t == 3 or (rf, rp) == (2, 2)):
            jobs.append(Job("poseidon::opt_k", f, (t, d, rf, rp, k), cost=2 + t ** 3 * (rp + 2) / 200))
    for t in (3, 8):
        for tab, inp in SPECIAL:
            jobs.append(Job("p2::perm_p", "bls", (t, 5, 4, 3, tab, inp), cost=1 + t))
            jobs += [Job("poseidon::perm_p", "bls", (t, 5, 4, 3, tab, inp, w), cost=1 + t) for w in (0, 1)]
    for inp in range(9):
        jobs.append(Job("gmimc::perm_p", "bls", (8, 5, 19, inp), cost=2))
        jobs += [Job("neptune::perm_p", "bls", (t, 5, 4, 3, inp), cost=2) for t in (4, 6, 8)]
    for n in (1, 2, 3, 4):
        jobs.append(Job("misc::inverse", "bn", (n,), cost=5 ** n / 5))
        jobs.append(Job("misc::products", "bn", (n,)))
        for m in range(0, 6):
            jobs.append(Job("misc::transpose", "bn", (n, m)))
            jobs.append(Job("misc::transpose", "bn", (m, n)))
    for c in list(range(0, 81, 2)):
        jobs.append(Job("misc::inverse_k", "goldilocks", (2, c)))
    for c in range(7, 19000, 403):
        jobs.append(Job("misc::inverse_k", "goldilocks", (3, c)))
    for n in list(range(0, 70, 3)) + [64, 65, 66, 128]:
        for sd in (0, 1, 2, 7):
            jobs.append(Job("misc::hex", "bn", (n, sd)))
    for k in (0, 3, 7):
        for ch in (47, 58, 64, 71, 96, 103, 32):
            jobs.append(Job("misc::hex_bad", "bn", (8, k, ch)))
    jobs += [Job("misc::samplers", f) for f in ALL] + [Job("misc::consts", f) for f in ALL]
    for f in ("bn",):
        jobs += [Job("misc::compress_p2", f, (5, 4, 2)), Job("misc::compress_gmimc", f, (5, 7)), Job("misc::compress_neptune", f, (5, 2, 2)), Job("misc::compress_poseidon", f, (5, 2, 2), cost=20), Job("misc::compress_poseidon_k", f, (5, 4, 2))]
    for k in (0, 1):
        jobs += [Job("misc::reject_p2", "bn", (k, 3)), Job("misc::reject_poseidon", "bn", (k, 3, 3), cost=3), Job("misc::reject_neptune", "bn", (k,))]
    jobs += [Job("misc::reject_neptune", "bn", (2,)), Job("misc::reject_gmimc", "bn", (3,))]
    jobs += [Job("misc::reject_poseidon", "bn", (2, 3, r), mismatch=True) for r in (0, 1, 2, 4, 5)]
    for t in (2, 3, 4, 5, 8):
        for n in (0, 1, 2, 3, 4, 5, 6, 8, 9, 16):
            jobs.append(Job("misc::length_p2", "bn", (t, n), mismatch=n != t))
            jobs.append(Job("misc::length_gmimc", "bn", (t, n, 0), mismatch=n != t))
            jobs.append(Job("misc::length_gmimc", "bn", (t, n, 1), mismatch=n != t))
            if t % 2 == 0:
                jobs.append(Job("misc::length_neptune", "bn", (t, n), mismatch=n != t))
    R = ref.load()
    for n, (f, t) in ref.P2_INST.items():
        e = R[n]
        jobs.append(Job("inst_p2::%s::dump" % n, "", (), cost=2))
        jobs.append(Job("inst_p2::%s::perm" % n, "", (t, e["d"], e["rf"], e["rp"]), cost=1 + t * t * e["rp"] / 3000))
    for n, (f, t) in ref.POSEIDON_INST.items():
        if t <= (8 if not ctx.thorough else 24):
            jobs.append(Job("inst_poseidon::%s::dump" % n, "", (), cost=2 + t ** 3 / 50))
            jobs.append(Job("inst_poseidon::%s::opt" % n, "", (t,), cost=2 + t ** 3 * R[n]["rp"] / 200))
    for n, (f, t) in list(ref.GMIMC_INST.items()) if ctx.thorough else [(k, v) for k, v in ref.GMIMC_INST.items() if v[1] <= 5]:
        jobs.append(Job("inst_gmimc::%s::dump" % n, "", (), cost=2 + t))
    for n, (f, t) in ref.NEPTUNE_INST.items():
        jobs.append(Job("inst_neptune::%s::dump" % n, "", (), cost=2 + t))
    def sig(r):
        if r["result"] == "panic":
            return ("panic",)
        return (r["result"], tuple((o["label"], "holds" if o["verdict"] in ("proved", "identity") else o["verdict"]) for o in r["obl"]), json.dumps([[k, v] for k, v in r["dumps"]], sort_keys=True))

    def maypanic(r):
        return {fn_of(e["loc"]) for e in r["events"] if e["kind"].startswith("maypanic") and "?" not in e["kind"]}

    for w in waves(jobs):
        if ctx.viol:
            break
        res = {c: ctx.run(c, w) for c in ("dbg", "rel", "asm")}
        for j in w:
            a = res["dbg"].get(j.id)
            for c, desc in (("rel", "release profile"), ("asm", "feature asm")):
                b = res[c].get(j.id)
                if a is None or b is None or a["result"] in ("unsupported", "budget") or b["result"] in ("unsupported", "budget"):
                    ctx.undecided(j, "%s: %s" % (c, (a or b or {"why": "not analysed"})["why"]))
                    continue
                sa, sb = sig(a), sig(b)
                if sa != sb:
                    if c == "rel" and sa == ("panic",) and j.meta.get("mismatch"):
                        ctx.ok(j, b, 1)
                        continue
                    where = fn_of((a if sa == ("panic",) else b)["why"].rsplit(" at ", 1)[-1]) if ("panic",) in (sa, sb) else (sorted(set(b["functions"])) or ["?"])[0]
                    what = "debug: %s / %s: %s" % (brief(a), desc, brief(b))
                    ctx.violation(c, j, where, "differs", what)
                    continue
                da, db = maypanic(a), maypanic(b)
                if da != db and not j.meta.get("mismatch"):
                    ctx.violation(c, j, sorted(da ^ db)[0], "panics", "only one of debug and %s can panic here: %s" % (desc, sorted(da ^ db)))
                    continue
                ctx.ok(j, b, 1)


def brief(r):
    if r["result"] == "panic":
        return "panics (%s)" % r["why"][:160]
    bad = [o for o in r["obl"] if o["verdict"] == "violated"]
    return r["result"] + (" with %s: %s" % (bad[0]["label"], bad[0]["detail"][:200]) if bad else " the specified value")


def c21(ctx):
    jobs = []
    fh = "zkhash::fields::utils::from_hex"
    draws = around(harvest(ctx, ["misc::samplers"], ["fields::utils::"], 1, 1100), 1, 1100)
    for f in ALL:
        top = 140 if not ctx.thorough else 300
        for n in range(2, top, 2 if f in GB or ctx.thorough else 14):
            for sd in (0, 1, 2, 3, 7, 11) if f in GB else (1, 7):
                jobs.append(Job("misc::hex", f, (n, sd), cost=1 + n / 50, anchor=fh))
        for n in (2, 4, 6, 8, 16, 32, 62, 64, 66, 100) if f in GB else (4, 16, 64):
            jobs.append(Job("misc::hex_sym", f, (n,), cost=2 + n / 10, anchor=fh))
        bad = (0x2F, 0x3A, 0x40, 0x47, 0x60, 0x67, 0x20, 0x7A, 0x5A, 0x2B, 0x2D, 0x5F, 0x78, 0x58, 0x09, 0x0A, 0x7F, 0x01, 0x49, 0x6F)
        for n in (2, 3, 4, 10, 17, 65) if f in GB else (6,):
            for k in sorted({(0, 1), (0, n - 1), (n - 2, n - 1), (n // 2, n - 1)}):
                for c in bad if f in GB else bad[:6]:
                    if k[0] != k[1]:
                        jobs.append(Job("misc::hex_bad2", f, (n, *k, c), expect="panics", anchor=fh))
        for n in (2, 3, 8, 9, 64, 65) if f in GB else (16,):
            for k in sorted({0, 1, n // 2, n - 2, n - 1}):
                for c in bad if f in GB else bad[:6]:
                    jobs.append(Job("misc::hex_bad", f, (n, k, c), expect="panics", anchor=fh))
        for n in (1, 2, 3, 8, 31, 32, 33, 45) if f in GB else (8, 33):
            for k in sorted({0, n // 2, n - 1}):
                for b in range(256) if f in GB and (n < 33 or k == n - 1) else (0, 1, 10, 15, 16, 127, 128, 255):
                    jobs.append(Job("misc::hex_byte", f, (n, k, b), cost=1, anchor=fh))
        for k in (0, 1, 2, 3, 4, 5, 8, 10, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257) + tuple(draws):
            for v in range(8) if k < 3 else (0, 1, 7):
                jobs.append(Job("misc::sampler_draw", f, (k, v), cost=1, anchor="zkhash::fields::utils::random_scalar / random_scalar_without_0"))
        jobs.append(Job("misc::samplers", f, (), anchor="zkhash::fields::utils::random_scalar / random_scalar_without_0"))
    sweep(ctx, jobs, fh)


HASHING = ("permutation", "permutation_not_opt", "compress", "new", "get_t", "hash")
API = ["P2", "P2_PARAMS", "POSEIDON", "POSEIDON_PARAMS", "GMIMC", "GMIMC_PARAMS", "NEPTUNE", "NEPTUNE_PARAMS"]


def c22(ctx):
    jobs = [Job("@api", "api::" + t) for t in API] + [Job("@api", "api::CONTROL")]
    res = ctx.run("dbg", jobs)
    for j in jobs:
        r = res.get(j.id)
        if r is None or r["result"] != "returned":
            ctx.undecided(j, r["why"] if r else "not analysed")
            continue
        a = r["api"][0]
        if j.types == "api::CONTROL":
            why = {m["why"] for m in a["mutators"]}
            okc = not a["send"] and not a["sync"] and any(f["public"] for f in a["fields"]) and not all(f["freeze"] for f in a["fields"]) and len(why) >= 3 and a["cells"]
            if not okc:
                raise RuntimeError("interface rules do not fire on the positive control: %s" % a)
            ctx.ok(j, r, 5, "positive control: public field, mutator, interior mutability, missing Send/Sync are all reported")
            continue
        ty = a["type"].split("<")[0]
        bad = 0
        for f in a["fields"]:
            if f["public"]:
                bad += 1
                ctx.violation("dbg", j, "%s::%s" % (ty, f["name"]), "public field", "field %s of %s is public" % (f["name"], ty))
        for m in a["mutators"]:
            bad += 1
            ctx.violation("dbg", j, m["method"], "mutator", "%s %s" % (m["method"], m["why"]))
        for m in a["cells"]:
            # writes inside the hashing methods (a cache) are judged by `twice`
            if m["name"] not in HASHING:
                bad += 1
                ctx.violation("dbg", j, m["method"], "mutator", "%s takes &self and %s" % (m["method"], m["why"]))
        for tr in ("send", "sync"):
            if not a[tr]:
                bad += 1
                ctx.violation("dbg", j, ty, tr, "%s is not %s" % (ty, tr.capitalize()))
        if not bad:
            ctx.ok(j, r, len(a["fields"]) + a["methods"] + 2, "%s: %d private fields, %d public methods without mutable access, Send + Sync" % (ty, len(a["fields"]), a["methods"]))
    twice(ctx)


def c23(ctx):
    jobs = []
    for f in GB:
        for t in P2_T:
            for d in (3, 5, 7, 11):
                jobs.append(Job("p2::perm", f, (t, d, 4, 3), cost=1 + t, anchor="Poseidon2::permutation"))
        for t in (2, 3, 4, 8, 12):
            for d in (3, 5, 7):
                jobs.append(Job("poseidon::plain_k", f, (t, d, 4, 3, 0), cost=2 + t ** 3 / 200, anchor="Poseidon::permutation_not_opt"))
                jobs.append(Job("poseidon::opt_k", f, (t, d, 4, 3, 0), cost=2 + t ** 3 / 200, anchor="Poseidon::permutation"))
        for t in (2, 3, 4, 5, 8, 12, 24):
            for d in (3, 5, 7):
                jobs.append(Job("gmimc::perm", f, (t, d, 2 * t + 1), cost=1 + t, anchor="Gmimc::permutation"))
        for t in (2, 4, 6, 8, 12, 24):
            for d in (3, 5, 7):
                jobs.append(Job("neptune::perm", f, (t, d, 4, 3), cost=1 + t, anchor="Neptune::permutation"))
        for d in (3, 5, 7):
            jobs += [Job("misc::compress_p2", f, (d, 4, 2), anchor="Poseidon2::compress"), Job("misc::compress_poseidon_k", f, (d, 4, 2), anchor="Poseidon::compress"), Job("misc::compress_gmimc", f, (d, 7), anchor="Gmimc::compress"), Job("misc::compress_neptune", f, (d, 2, 2), anchor="Neptune::compress")]
    R = ref.load()
    for n, (f, t) in ref.P2_INST.items():
        e = R[n]
        jobs.append(Job("inst_p2::%s::perm" % n, "", (t, e["d"], e["rf"], e["rp"]), cost=1 + t * t * e["rp"] / 3000, anchor=n))
    for n, (f, t) in ref.POSEIDON_INST.items():
        if t <= 8 or ctx.thorough:
            jobs.append(Job("inst_poseidon::%s::opt" % n, "", (t,), cost=2 + t ** 3 * R[n]["rp"] / 200, anchor=n))
    # literal-driven and large round counts and sizes
    done = {j.id for j in jobs}
    more = [Job("p2::perm", f, (t, d, rf, rp), cost=1 + t * (rf + rp) / 10, anchor="Poseidon2::permutation") for f, t, d, rf, rp in p2_sizes(ctx) if f == "goldilocks" and d == 7 and t in (2, 3, 8)]
    more += [Job("gmimc::perm", f, (t, d, r), cost=1 + t * r / 20, anchor="Gmimc::permutation") for f, t, d, r in gmimc_sizes(ctx) if f == "goldilocks" and d == 7]
    more += [Job("neptune::perm", f, (t, d, rf, rp), cost=1 + t * t * (rf + rp) / 40, anchor="Neptune::permutation") for f, t, d, rf, rp in neptune_sizes(ctx) if f == "goldilocks" and d == 7]
    for f, t, d, rf, rp, k in poseidon_sizes(ctx, (0,))[1]:
        if f == "goldilocks" and d == 7 and (t <= 3 or (rf, rp) == (2, 2)):
            more += [Job("poseidon::%s_k" % e, f, (t, d, rf, rp, k), cost=2 + t ** 3 * (rp + 2) / 200, anchor=a) for e, a in (("plain", "Poseidon::permutation_not_opt"), ("opt", "Poseidon::permutation"))]
    jobs += [j for j in more if j.id not in done]
    seen = set()
    for w in waves(jobs):
        if ctx.viol:
            break
        res = ctx.run("dbg", w, stop=lambda x: re.search(r'"(branch|index)-in"[^}]*\bx\[', x) is not None)
        for j in w:
            r = res.get(j.id)
            if r is None:
                ctx.undecided(j, "not analysed")
                continue
            bad = 0
            for e in r["events"]:
                if e["kind"] in ("branch-in", "index-in", "branch", "index") and re.search(r"\bx\[\d+\]", e["what"]):
                    # events left open by an aborted analysis are inside the region as well
                    if e["kind"] in ("branch", "index") and r["result"] == "returned":
                        continue
                    bad += 1
                    k = (fn_of(e["loc"]), e["kind"])
                    if k not in seen:
                        seen.add(k)
                        ctx.violation("dbg", j, fn_of(e["loc"]), e["kind"].split("-")[0], "%s at %s depends on %s" % ("branch" if e["kind"].startswith("branch") else "memory access", e["loc"], e["what"]))
            if not bad:
                if r["result"] in ("unsupported", "budget"):
                    ctx.undecided(j, r["result"] + ": " + r["why"])
                else:
                    ctx.ok(j, r, 1)


def c24(ctx):
    jobs = []
    P = "zkhash::poseidon::poseidon_params::PoseidonParams::"
    lit = poseidon_rounds(ctx) | harvest(ctx, ["pure::p2_helpers", "pure::poseidon_helpers"], ["equivalent"], 0, 60)
    for e, anchor in (("equiv_rc", P + "equivalent_round_constants"), ("equiv_rc_p2", "zkhash::poseidon2::poseidon2_params::Poseidon2Params::equivalent_round_constants"), ("sparse", P + "equivalent_matrices")):
        for f in GB:
            for t in (2, 3) + ((4,) if e != "sparse" or ctx.thorough else ()):
                for d in (3, 5):
                    for b in (0, 1, 2, 4) if e != "sparse" else (0,):
                        for rp in (1, 2, 3, 5):
                            if t == 4 and rp > 3:
                                continue
                            jobs.append(Job("poseidon::" + e, f, (t, d, b, rp), cost=5 ** t * rp / 60 * (4 if e == "sparse" else 1), anchor=anchor))
            for t in (2, 3, 4, 5, 8, 12, 16, 24):
                for b, rp in ((1, 1), (2, 2), (4, 4), (3, 7)) + (((4, 22), (4, 56)) if t <= 8 or ctx.thorough else ()):
                    jobs.append(Job("poseidon::%s_k" % e, f, (t, 5, b, rp, 1), cost=1 + t ** 3 * rp / 300, anchor=anchor))
        for rp in around(lit, 1, 70):
            jobs.append(Job("poseidon::%s_k" % e, "goldilocks", (3, 7, 4, rp, 0), cost=1, anchor=anchor))
    sweep(ctx, jobs, "helper")


CHECKS = {"C%02d" % i: globals()["c%02d" % i] for i in range(1, 25)}

_G = "Entry contexts call the public API on symbolic inputs, tables and parameters; the analyser propagates constants and polynomial value numbers through the MIR of every reached function, joining at post-dominators, and compares the result with the specification term."
_E = "Call-graph effect analysis from the public roots over the monomorphised MIR: any path to a mutable or interior-mutable static, thread-local, foreign function, address-to-integer cast or inline assembly is a violation."
RULES = {k: _G for k in CHECKS}
RULES["C15"] = RULES["C16"] = _E
RULES["C22"] = "Visibility and signature rules over the type-checked crate: no public field, no public method giving mutable access, no interior mutability in fields, Send and Sync provable by the trait solver. Clones and shared objects: " + _G
RULES["C23"] = "Taint rule of the abstract interpreter: every branch condition, loop bound and index evaluated inside this crate's evaluation region must not depend on a symbol of the input state. " + _G
RULES["C10"] = "Associated constants evaluated by constant propagation in each configuration; modulus compared with the standard prime, generator order checked with the factorisation of p - 1."
