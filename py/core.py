"""Check driver: sampling, gates, minimisation, replay files, evidence."""
import argparse, concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import sim as S

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Outcome:
    """viol: list of (key, text) - key names what is violated, text describes this instance."""

    def __init__(self):
        self.viol, self.known, self.fp, self.other, self.tags = [], [], [], [], []
        self.files = {}

    def add(self, res):
        self.files = res.files
        self.fp.append(res.fingerprint())
        return res

    def bad(self, key, text):
        self.viol.append((key, text))

    def keys(self):
        return sorted({k for k, _ in self.viol})


class Prop:
    id = None
    level = "exploration"
    needs = []              # [(kind, variant)] driver binaries
    quick, thorough = 200, 4000
    rule = ""
    assumptions = []
    real = ["all of the solver's sources (Source/*.cpp of the shipped object list)"]
    stubs = ["SHTns (transforms by dense sums; contract checks)", "OpenMP runtime", "heap", "file system calls (real files behind a fault layer)", "clock and entropy", "FFTW planner (real FFTW executes; choice of algorithm from the seed)"]
    kinds = ()              # violation kinds of the simulator that concern this property

    def context(self):
        self.build = B.Build(self.needs) if self.needs else None
        return S.Ctx(self.build)

    def close(self):
        if self.build:
            self.build.close()

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, ctx, case):
        raise NotImplementedError

    def shrink(self, ctx, case, key):
        return []

    def nontrivial(self, case, out):
        return True

    def finding(self, out, key, text):
        """A violation that known_findings.txt lists, or a violation like any other."""
        for k, desc in known_entries(self.id):
            if k == key:
                out.known.append((key, desc))
                return
        out.bad(key, text)

    def settle(self, case):
        return case

    # -- helpers
    def sim_viol(self, out, res, expect_ok=True):
        """Violations the simulator itself reported in a run."""
        n = 0
        for v in res.r["viol"]:
            kind = v.split(":", 1)[0]
            if kind in self.kinds:
                out.bad(kind, v + where(self, res, v))
                n += 1
            else:
                out.other.append(v)
        if not n and expect_ok and not res.r["viol"]:
            st = res.r["status"]
            if st != 0 or not res.r["finished"]:
                out.bad("abnormal end", "the run ended with %s instead of finishing; console: %s" % (status(st), tail(res.con)))
                n += 1
        return n


def where(prop, res, v):
    m = re.search(r"\(pc (0x[0-9a-f]+)\)", v)
    if not m or not prop.build:
        return ""
    s = prop.build.symbol(res.kind, res.variant, m.group(1))
    return " in " + s if s else ""


def status(st):
    return "signal %d" % (st - 256) if st >= 256 else "exit status %d" % st


def tail(b, n=200):
    return b[-n:].decode("latin1").replace("\n", " | ")


def known_entries(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def ddmin(items, test, deadline):
    """Smallest sub-list (in order) for which test holds."""
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        if len(items) == 1:
            if test([]):
                items = []
            break
        size = max(1, len(items) // n)
        reduced = False
        for i in range(0, len(items), size):
            cand = items[:i] + items[i + size:]
            if time.time() > deadline:
                break
            if test(cand):
                items, n, reduced = cand, max(n - 1, 2), True
                break
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


class GateError(Exception):
    pass


def run_check(prop, tier, seed, count=None, budget=None):
    t0 = time.time()
    n = count or (prop.quick if tier == "quick" else prop.thorough)
    budget = budget or (300 if tier == "quick" else 780)
    ctx = prop.context()
    tb = time.time() - t0
    seen_known, done, distinct, other, samples, tags = {}, 0, set(), {}, [], {}
    found, gate = {}, None
    try:
        def one(i):
            rng = random.Random("%s/%s/%d" % (prop.id, seed, i))
            case = prop.settle(prop.gen(rng, i, tier))
            out = prop.execute(ctx, case)
            return i, case, out

        npool = getattr(prop, "jobs", 8)
        with cf.ThreadPoolExecutor(npool) as ex:
            # determinism: the same case twice, on different workers
            ndet = min(n, getattr(prop, "ndet", 24))
            pend = {}
            nxt = 0
            det = {}
            stop = False
            rerun = list(range(ndet))
            while True:
                while not stop and len(pend) < 2 * npool and (nxt < n or rerun):
                    if nxt < n and (nxt < ndet or not rerun):
                        pend[ex.submit(one, nxt)] = 0
                        nxt += 1
                    else:
                        pend[ex.submit(one, rerun.pop(0))] = 1
                if not pend:
                    break
                fin, _ = cf.wait(list(pend), return_when=cf.FIRST_COMPLETED)
                for f in fin:
                    second = pend.pop(f)
                    i, case, out = f.result()
                    fpr = (tuple(out.fp), tuple(out.viol), tuple(out.known))
                    if i < ndet:
                        if i in det and det[i] != fpr and not any("timeout" in t for _, t in out.viol):
                            gate = gate or GateError("case %d is not deterministic:\n%r\n%r" % (i, det[i], fpr))
                            if not (out.viol or det[i][1]):
                                stop = True
                        det[i] = fpr
                    if out.viol and i not in found:
                        found[i] = (i, case, out)
                        stop = stop or len(found) >= 4 or not gate
                    if second:
                        continue
                    done += 1
                    for k in out.known:
                        seen_known[k[0]] = k[1]
                    for v in out.other:
                        k = v.split(":", 1)[0]
                        other[k] = other.get(k, 0) + 1
                    for t in out.tags:
                        tags[t] = tags.get(t, 0) + 1
                    if prop.nontrivial(case, out):
                        distinct.add(hashlib.sha1(json.dumps([case, [x[0:3] for x in out.fp]], sort_keys=True, default=str).encode()).hexdigest())
                    if len(samples) < 3:
                        samples.append(case)
                if time.time() - t0 > budget:
                    stop = True
        for i in sorted(found):
            try:
                return report(prop, ctx, found[i], tier, seed, t0, done, distinct, samples, tags, n)
            except GateError as e:
                gate = gate or e
        if gate:
            raise gate
        for k, text in sorted(seen_known.items()):
            print("KNOWN-FINDING: property=%s %s" % (prop.id, text))
        evidence(prop, ctx, tier, seed, t0, tb, done, distinct, samples, tags, other, n, 0)
        print("%s: held on %d cases, %d simulated runs, %.1f s" % (prop.id, done, ctx.nruns, time.time() - t0))
        return 0
    finally:
        ctx.close()
        prop.close()


def evidence(prop, ctx, tier, seed, t0, tb, done, distinct, samples, tags, other, planned, nviol):
    wall = time.time() - t0
    st = dict(ctx.stats)
    simtime = st.pop("simtime", 0.0)
    maxerr = st.pop("maxerr", 0.0)
    maxev = st.pop("maxev", 0)
    faults = {k: v for k, v in st.items() if k.startswith("f_") or k in ("alloc_fail", "crashed", "signals", "short_teams")}
    faults.update(getattr(prop, "fault_counts", {}))
    run_s = max(wall - tb, 1e-3)
    cov = {
        "evaluations": done,
        "distinct_nontrivial": len(distinct),
        "rule": prop.rule,
        "samples": samples,
        "cases_planned": planned,
        "simulated_runs": ctx.nruns,
        "runs_per_hour": int(ctx.nruns / run_s * 3600),
        "seeds_per_hour": int(done / run_s * 3600),
        "simulated_time": simtime,
        "simulated_time_unit": getattr(prop, "time_unit", "coordinate time of the evolutions run (the program has no timers; its clock is read, from the seed, only to plan transforms and to report)"),
        "simulated_time_steps": st.pop("steps", 0),
        "faults_injected": faults,
        "distinct_interleavings": len(ctx.shashes),
        "interleaving_measure": "hash of the sequence of (parallel region, thread) switches of a run",
        "counters": {k: v for k, v in st.items() if k not in faults},
        "case_tags": tags,
        "largest_error_over_tolerance": maxerr,
        "determinism_gate": "first %d cases executed twice on different workers, all observations equal" % min(done, getattr(prop, "ndet", 24)),
        "real_components": prop.real,
        "stubbed_components": prop.stubs,
        "runs_ended_by_a_violation_of_another_property": other,
    }
    if maxev:
        cov["longest_run_events"] = maxev
    cov.update(getattr(prop, "extra_coverage", lambda c: {})(ctx))
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov,
          "assumptions": prop.assumptions, "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def fresh_exec(prop, ctx, case):
    ctx.fresh()
    with ctx.lock:
        ctx.cache.clear()
    return prop.execute(ctx, case)


def report(prop, ctx, first, tier, seed, t0, done, distinct, samples, tags, n):
    i, case, out = first
    key = out.viol[0][0]
    if os.environ.get("SFK_FAST"):          # development only
        print("%s: %s\nVIOLATION property=%s replay=none" % (key, out.viol[0][1], prop.id))
        return 1
    # gate: the same case again, twice, in new processes
    timeouts = any("timeout" in t for _, t in out.viol)
    for _ in range(2):
        again = fresh_exec(prop, ctx, case)
        if key not in again.keys():
            raise GateError("violation of case %d did not repeat: %r / %r" % (i, out.viol[:2], again.viol[:2]))
    deadline = time.time() + 60
    best = case
    if not timeouts:
        def test(cand):
            try:
                return key in prop.execute(ctx, cand).keys()
            except S.HarnessError:
                return False
        progress = True
        while progress and time.time() < deadline - 15:
            progress = False
            for cand in prop.shrink(ctx, best, key):
                if time.time() > deadline - 15:
                    break
                if test(cand):
                    best, progress = cand, True
                    break
        if hasattr(prop, "minimise_schedule"):
            best = prop.minimise_schedule(ctx, best, key, test, ddmin, deadline)
    final = fresh_exec(prop, ctx, best)
    if key not in final.keys():
        best, final = case, fresh_exec(prop, ctx, case)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    text = [t for k, t in final.viol if k == key][0]
    rep = {"property": prop.id, "key": key, "violation": text, "case_index": i, "seed": seed, "case": best, "original_case": case}
    path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop.id, hashlib.sha1(json.dumps(best, sort_keys=True).encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    # the file alone, in a fresh process of its own, must show the same violation
    r = subprocess.run([sys.executable, os.path.join(VERIF, "py", "check.py"), "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 1 or "VIOLATION property=%s" % prop.id not in r.stdout:
        raise GateError("replay file %s does not reproduce: %s" % (path, r.stdout[-2000:]))
    evidence(prop, ctx, tier, seed, t0, 0.0, done, distinct, samples, tags, {}, n, 1)
    print("%s: %s" % (key, text))
    print("case: " + json.dumps(best)[:1500])
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    return 1


def replay(path, props):
    rep = json.load(open(path))
    prop = props[rep["property"]]()
    ctx = prop.context()
    try:
        out = prop.execute(ctx, rep["case"])
        for k, t in out.viol:
            print("%s: %s" % (k, t))
        if rep["key"] in out.keys():
            print("VIOLATION property=%s replay=%s" % (prop.id, path))
            return 1
        print("not reproduced")
        return 0
    finally:
        ctx.close()
        prop.close()
