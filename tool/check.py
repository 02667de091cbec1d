#!/usr/bin/env python3
"""check.py C07 [--thorough]      decide one property on /repo's working tree
   check.py --setup               build the analyser and the analysis inputs
   check.py --replay FILE         repeat one reported analysis"""
import json, os, random, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import log

T0 = time.time()
LIMIT = {"quick": 540, "thorough": 5400}
FULL = {"C02", "C05", "C08", "C10", "C15", "C16", "C22"}  # finite or unbounded-input domains covered completely
RULES = {}
TRUSTED = [
    "rustc nightly: parsing, type checking, trait resolution and MIR construction of /repo and its dependencies",
    "the analyser in /verif/engine: transfer functions of MIR statements, joins, and the replacement of ark-ff field operations by arithmetic in Z/p",
    "the entry contexts and specifications in /verif/probe and the reference generator /verif/tool/ref.py",
    "identities that are not syntactic are compared at three or more points of the analysed prime field and on the boundary of each branch condition (random interpretation, one-sided error; obligations over the small fields are repeated over a 255-bit one)",
]


def known():
    out = set()
    p = os.path.join(core.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property="):
                pid, key = l[len("KNOWN-FINDING: property="):].split(" ", 1)
                out.add((pid, key.split(" :: ")[0].strip()))
    return out


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.deadline = T0 + LIMIT[tier]
        self.cache = {}
        self.viol, self.found, self.und = [], {}, []
        self.n_ok = self.n_obl = self.n_proved = self.n_ident = 0
        self.functions, self.steps, self.joins, self.ms = set(), 0, 0, 0
        self.samples, self.n_an, self.nf, self.calls = [], 0, 0, 0
        self.cfgs, self.entries = set(), {}
        self.known = {k for p, k in known() if p == pid}
        self.counted = set()
        self.okjobs = set()

    def rng(self, n):
        return random.Random(self.seed * 1000003 + n)

    def run(self, cfg, jobs, stop=None):
        self.cfgs.add(cfg)
        todo = [j for j in jobs if (cfg, j.id) not in self.cache]
        if todo:
            left = self.deadline - time.time()
            if left > 8:
                res = core.run(cfg, todo, deadline=self.deadline, job_ms=90_000 if not self.thorough else 900_000, stop=stop)
                for i, r in res.items():
                    self.cache[cfg, i] = r
                    if r["result"] not in ("unsupported", "budget"):
                        self.n_an += 1
                    self.functions.update(r.get("functions") or [])
                    self.steps += r.get("steps", 0)
                    self.joins += r.get("joins", 0)
                    k = r.get("entry") or ""
                    self.entries[k] = self.entries.get(k, 0) + 1
            else:
                for j in todo:
                    self.cache[cfg, j.id] = core.blank(j, "budget", "time limit of this check reached")
        out = {}
        for j in jobs:
            r = self.cache.get((cfg, j.id))
            if r is None:
                continue
            out[j.id] = r
        return out

    def ok(self, j, r, n, text=None, functions=None, calls=None):
        self.n_ok += 1
        self.n_obl += n
        self.nf += functions or 0
        self.calls += calls or 0
        self.okjobs.add(j.id)
        for o in r.get("obl", []):
            if o["verdict"] == "proved":
                self.n_proved += 1
            elif o["verdict"] == "identity":
                self.n_ident += 1
        e = j.entry + (text or "")[:12]
        if e not in self.counted and len(self.samples) < 14:
            self.counted.add(e)
            self.samples.append(text or "%s: %d obligations discharged (%s), %d functions, %d joins" % (
                j.id, n, ", ".join(sorted({o["label"].split("[")[0] for o in r.get("obl", [])}))[:120] or r["result"], r.get("nfunctions", 0), r.get("joins", 0)))

    def violation(self, cfg, j, anchor, rule, why, trace=None, key=None):
        if key is not None and key in self.known:
            self.found.setdefault(key, why)
            return
        v = {"property": self.pid, "configuration": cfg, "entry": j.entry, "types": j.types, "args": list(j.args), "anchor": anchor, "rule": rule, "why": why, "trace": trace or "", "key": key, "tier": self.tier, "seed": self.seed}
        self.viol.append(v)

    def undecided(self, j, why):
        self.und.append("%s: %s" % (j.id, why))


def evidence(ctx, pid, err=None):
    n, h = core.repo_state()
    cov = {
        "explanation": "Static analysis of the MIR of /repo's working tree (no code of /repo is executed). An obligation is one judged statement: an equality with the specification, a rejection, or an effect/visibility rule.",
        "obligations": ctx.n_obl + len(ctx.viol) + len(ctx.und),
        "discharged": ctx.n_obl,
        "obligations_by_value_numbering": ctx.n_proved,
        "obligations_by_random_interpretation": ctx.n_ident,
        "undecided": len(ctx.und),
        "undecided_list": ctx.und[:60],
        "analyses": ctx.n_an,
        "analyses_by_entry": dict(sorted(ctx.entries.items())),
        "distinct_functions_analysed": len(ctx.functions),
        "functions": sorted(f for f in ctx.functions if "zkhash" in f)[:80],
        "abstract_steps": ctx.steps,
        "control_flow_joins": ctx.joins,
        "call_graph_functions": ctx.nf,
        "call_sites": ctx.calls,
        "configurations": sorted(ctx.cfgs),
        "source_files": n,
        "source_digest": h,
        "rule": RULES.get(pid, ""),
        "samples": ctx.samples or ["none"],
        "known_findings": sorted(ctx.found),
        "checker_cmd": "python3 tool/check.py " + pid,
        "trusted_base": TRUSTED,
    }
    if err:
        cov["error"] = err
    ev = {
        "property": pid, "tier": ctx.tier, "seed": ctx.seed,
        "level": "proof" if pid in FULL else "other",
        "coverage": cov,
        "assumptions": ["sizes and round numbers are covered by the partition listed in DESIGN.md, values and tables symbolically"] if pid not in FULL else [],
        "wall_s": round(time.time() - T0, 1),
        "violations": len(ctx.viol),
    }
    d = os.path.join(core.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    a = sys.argv[1:]
    if "--setup" in a:
        core.engine()
        for c in core.CONFIGS:
            x = core.config(c)
            log(c, "ok" if x.args else "does not compile", x.dropped)
        return 0
    tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    only = None
    if "--replay" in a:
        only = json.load(open(a[a.index("--replay") + 1]))
        pid = only["property"]
        tier, seed = only["tier"], only["seed"]
    else:
        pid = [x for x in a if not x.startswith("-")][0]
    os.environ["VERIF_SEED"] = str(seed)
    import props
    RULES.update(props.RULES)
    ctx = Ctx(pid, tier, seed)
    if only:
        r = core.run(only["configuration"], [core.Job(only["entry"], only["types"], tuple(only["args"]))])
        print(json.dumps(r, indent=1)[:20000])
        print("reported: %s: %s" % (only["anchor"], only["why"]))
        return 0
    try:
        props.CHECKS[pid](ctx)
    except core.Broken as e:
        evidence(ctx, pid, str(e)[-2000:])
        log("ERROR: " + str(e))
        return 2
    except Exception:
        if not ctx.viol:
            evidence(ctx, pid, traceback.format_exc()[-2000:])
            log(traceback.format_exc())
            return 2
    evidence(ctx, pid)
    for k in sorted(ctx.found):
        log("KNOWN-FINDING: property=%s %s" % (pid, k))
    log("%s %s: %d analyses, %d obligations discharged, %d undecided, %d violations, %.0f s" % (pid, tier, ctx.n_an, ctx.n_obl, len(ctx.und), len(ctx.viol), time.time() - T0))
    for u in ctx.und[:12]:
        log("  undecided: " + u[:300])
    if ctx.viol:
        d = os.path.join(core.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        groups = {}
        for v in ctx.viol:
            groups.setdefault((v["anchor"], v["rule"]), []).append(v)
        for i, ((anchor, rule), vs) in enumerate(sorted(groups.items())[:10]):
            p = os.path.join(d, "%s.%d.json" % (pid, i))
            v = dict(vs[0], similar=len(vs) - 1)
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            log("  %s [%s] %s(%s) %s: %s%s" % (anchor, rule, v["entry"], ",".join(map(str, v["args"])), v["configuration"], v["why"][:700], " (and %d more)" % (len(vs) - 1) if len(vs) > 1 else ""))
            log("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    return 0


if __name__ == "__main__":
    rc = main()
    try:
        os.remove(core._tables or "")
    except OSError:
        pass
    sys.exit(rc)
