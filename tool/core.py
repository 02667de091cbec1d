"""Build the analysis inputs from /repo's working tree and run the analyser."""
import concurrent.futures, fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
ENGINE = os.path.join(VERIF, "engine")
PROBE = os.path.join(VERIF, "probe")
TRIPLE = "x86_64-unknown-linux-gnu"
MIRI = "/root/.cache/miri"
BASE_FLAGS = "-Zalways-encode-mir -Zmir-opt-level=0 -Cpanic=abort"


def log(*a):
    print(*a, flush=True)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()
    return _sysroot


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("ABSINT_", "CARGO_PROFILE", "RUSTFLAGS", "RUSTC_", "CARGO_ENCODED", "CARGO_BUILD", "CARGO_TARGET")):
            del e[k]
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    e["RUST_MIN_STACK"] = "1073741824"
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


class Broken(Exception):
    """The machinery itself cannot run (not a statement about the property)."""


def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    h = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(h, fcntl.LOCK_EX)
    return h


def engine():
    """Build the analyser if its sources are newer than the binary."""
    with lock("engine"):
        td = os.path.join(BUILD, "engine")
        r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "-q"], cwd=ENGINE, env=env(CARGO_TARGET_DIR=td), capture_output=True, text=True)
        if r.returncode != 0:
            raise Broken("engine does not build:\n" + r.stderr[-4000:])
        return os.path.join(td, "release", "absint")


CONFIGS = {
    # debug assertions, overflow checks
    "dbg": {},
    "rel": {"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"},
    # cargo feature asm: only its effect on this crate's source
    "asm": {"ABSINT_CFG": 'zkhash:feature="asm"'},
}
MODULES = ["gmimc", "inst_gmimc", "inst_neptune", "inst_p2", "inst_poseidon", "merkle", "misc", "neptune", "poseidon", "pure", "api"]


class Config:
    def __init__(self, name, args, dropped, diag):
        self.name, self.args, self.dropped, self.diag = name, args, dropped, diag


_configs = {}


def config(name):
    """Type-check /repo and the entry contexts under one configuration and
    record the compiler command line the analyser replays."""
    if name in _configs:
        return _configs[name]
    exe = engine()
    with lock("cfg-" + name):
        lk = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lk) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", lk)
        td = os.path.join(BUILD, name)
        args = os.path.join(BUILD, name + ".args")
        dropped, diag = [], ""
        flags = BASE_FLAGS
        if os.path.isdir(MIRI):
            flags = "--sysroot " + MIRI + " " + flags
        for attempt in range(len(MODULES) + 1):
            # never trust a fingerprint for the analysed crate
            for base in (td, os.path.join(td, TRIPLE)):
                for d in ("debug/build", "debug/.fingerprint", "debug/deps"):
                    dd = os.path.join(base, d)
                    if os.path.isdir(dd):
                        for x in os.listdir(dd):
                            if re.match(r"(lib)?(zkhash|probe)([-.]|$)", x):
                                q = os.path.join(dd, x)
                                shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
            if os.path.exists(args):
                os.remove(args)
            extra = dict(CONFIGS[name])
            cf = [c for c in (extra.get("ABSINT_CFG", ""),) if c] + ["probe:no_" + m for m in dropped]
            extra["ABSINT_CFG"] = ";".join(cf)
            r = subprocess.run(
                ["cargo", "+nightly", "check", "--offline", "--target", TRIPLE, "--message-format", "json"],
                cwd=PROBE, capture_output=True, text=True,
                env=env(ABSINT_RECORD=args, CARGO_TARGET_DIR=td, RUSTC_WRAPPER=exe, RUSTFLAGS=flags, **extra))
            if r.returncode == 0 and os.path.exists(args):
                break
            bad, own = set(), []
            for l in r.stdout.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get("reason") != "compiler-message" or m["message"].get("level") != "error":
                    continue
                own.append(m["message"].get("rendered") or "")
                if m.get("target", {}).get("name") == "probe":
                    for s in m["message"].get("spans", []):
                        f = os.path.basename(s["file_name"])[:-3]
                        e = s
                        while e:
                            f = os.path.basename(e["span"]["file_name"] if "span" in e else e["file_name"])[:-3]
                            if f in MODULES:
                                bad.add(f)
                            e = e.get("expansion")
            diag = "\n".join(own)[-6000:] or r.stderr[-3000:]
            bad -= set(dropped)
            if not bad:
                c = Config(name, None, dropped, diag)
                _configs[name] = c
                return c
            dropped = sorted(set(dropped) | bad)
        _configs[name] = Config(name, args, dropped, diag)
        return _configs[name]


def repo_state():
    h = hashlib.sha256()
    n = 0
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "src"))):
        dirs.sort()
        for f in sorted(files):
            h.update(f.encode())
            h.update(open(os.path.join(root, f), "rb").read())
            n += 1
    return n, h.hexdigest()[:16]


_tables = None


def tables():
    global _tables
    if _tables is None:
        sys.path.insert(0, HERE)
        import ref
        _tables = os.path.join(BUILD, "tables.%d.txt" % os.getpid())
        ref.write_tables(ref.load(), _tables)
    return _tables


def blank(j, result, why):
    return {"id": j.id, "entry": j.entry, "result": result, "why": why, "trace": "", "obl": [], "events": [], "dumps": [], "functions": [], "nfunctions": 0, "steps": 0, "joins": 0, "ms": 0}


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


class Job:
    """One analysis: entry context, type arguments, size parameters.
    expect: holds | panics | either;  region: only panics inside the evaluated
    region count;  meta: free."""

    def __init__(self, entry, types="", args=(), expect="holds", cost=1, panics="region", **meta):
        self.entry, self.types, self.args = entry, types, tuple(args)
        self.expect, self.cost, self.panics, self.meta = expect, cost, panics, meta
        self.id = "%s<%s>(%s)" % (entry, types, ",".join(map(str, args)))

    def line(self):
        return "\t".join([self.id, self.entry, self.types, (";" if self.entry.startswith("@") else ",").join(map(str, self.args))])


def run(cfg, jobs, deadline=None, workers=8, budget=1_500_000_000, job_ms=120_000, stop=None, grace=4):
    """-> {job id: result}.  Missing results: not analysed.
    stop: predicate on the text of a result; once it holds, the remaining
    analyses are abandoned after a short grace period."""
    c = config(cfg)
    if c.args is None:
        return {}
    uniq = {}
    for j in jobs:
        uniq.setdefault(j.id, j)
    jobs = sorted(uniq.values(), key=lambda j: -j.cost)
    k = max(1, min(workers, len(jobs)))
    bins = [[0, []] for _ in range(k)]
    for j in jobs:
        b = min(bins, key=lambda b: b[0])
        b[0] += j.cost
        b[1].append(j)
    wd = os.path.join(BUILD, "run.%d" % os.getpid())
    os.makedirs(wd, exist_ok=True)
    exe = engine()
    tf = tables()
    halt = []

    def one(i):
        jf, of = os.path.join(wd, "%s.%d.jobs" % (cfg, i)), os.path.join(wd, "%s.%d.out" % (cfg, i))
        out = {}
        # cheap jobs first, so a slow one does not hide the others
        todo = sorted(bins[i][1], key=lambda j: j.cost)
        tries = 0
        while todo and tries < 10:
            tries += 1
            with open(jf, "w") as h:
                h.write("\n".join(j.line() for j in todo) + "\n")
            end = None if deadline is None else max(time.time() + 5, deadline)
            p = subprocess.Popen([exe, c.args, jf, of], cwd=PROBE, env=env(ABSINT_TABLES=tf, ABSINT_BUDGET=str(budget), ABSINT_JOB_MS=str(job_ms)),
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=limit)
            timed, pos = False, 0
            while True:
                try:
                    p.wait(0.25)
                    break
                except subprocess.TimeoutExpired:
                    pass
                if stop and not halt and os.path.exists(of):
                    with open(of) as h:
                        h.seek(pos)
                        chunk = h.read()
                        pos = h.tell()
                    if stop(chunk):
                        halt.append(time.time() + grace)
                if (end and time.time() > end) or (halt and time.time() > halt[0]):
                    timed = True
                    p.kill()
                    p.wait()
                    break
            done = 0
            if os.path.exists(of):
                for l in open(of):
                    try:
                        r = json.loads(l)
                    except ValueError:
                        break
                    out[r["id"]] = r
                    done += 1
                os.remove(of)
            todo = todo[done:]
            if todo and not timed:
                # the analyser died on this job
                out[todo[0].id] = blank(todo[0], "unsupported", "analyser died")
                todo = todo[1:]
            if timed:
                for j in todo:
                    out[j.id] = blank(j, "budget", "time limit")
                todo = []
        return out

    res = {}
    with concurrent.futures.ThreadPoolExecutor(k) as ex:
        for o in ex.map(one, range(k)):
            res.update(o)
    shutil.rmtree(wd, ignore_errors=True)
    return res
