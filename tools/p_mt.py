"""Threads: parallel minimisation, shared potentials, logging (binary mt)."""
import copy
import inputs
from dst import Violation

FAULT_KINDS = ("data-race", "deadlock", "no-termination", "leaked-thread", "exception", "signal")


def sched(rng, races, long_run=1000000):
    m = rng.random()
    if m < 0.1:
        s = {"mode": "seq"}
    elif m < 0.55:
        s = {"mode": "rw", "seed": rng.randrange(1 << 30), "psync": rng.choice([0.05, 0.3, 0.6, 1.0]), "gap": rng.choice([0, 0, 50, 300, 2000, 20000])}
    elif m < 0.8:
        s = {"mode": "pct", "seed": rng.randrange(1 << 30), "depth": rng.choice([1, 2, 3, 5, 8]), "len": rng.choice([2000, 20000, 200000, long_run])}
    else:
        s = {"mode": "stall", "seed": rng.randrange(1 << 30), "psync": rng.choice([0.1, 0.5]), "gap": rng.choice([300, 3000, 30000])}
    s["races"] = races
    return s


def toy_model(rng):
    m = rng.choice(["toy:cxsm"] * 4 + ["toy:r2hdm", "toy:sm"])
    return with_row(rng, m)


def with_row(rng, m):
    b = m.replace("toy:", "")
    r = {"model": m, "row": inputs.base_row(b), "legend": inputs.legend(b)}
    if b != m:
        r["shape"] = [rng.choice([0, 1, 2, 2, 3, 4, 5, 7, 7, 8, 9]), rng.choice([0, 0.1, 0.25, 0.4, 0.6, 0.8])]
    return r


def classify(r, prop):
    """-> Violation or None"""
    st = r["status"]
    if st in ("ok",):
        return None
    if st == "violation":
        kind = r["kind"]
    elif st == "signal":
        kind = "no-termination" if r.get("signal") == 24 else "signal"
    elif st == "timeout":
        kind = "no-termination"
    else:
        kind = st
    detail = r.get("detail") or r.get("what") or ("signal %s" % r.get("signal"))
    if kind == "no-termination" and st != "violation":
        detail = "not finished after the CPU time allowed to one run"
    elif st == "signal":
        detail = "the process died with signal %s %s %s" % (r.get("signal"), r.get("what", ""), (r.get("stderr") or "")[:400])
    if prop == "C02" and kind not in FAULT_KINDS:
        return None
    return Violation(kind, detail)


class Mt:
    real = ["src/minimizer (all files, access-instrumented)", "src/models (all files, access-instrumented)",
            "src/utility/Logger.cpp", "src/ThermalFunctions", "GSL multimin", "NLopt", "C++ standard library threads"]
    stubs = ["thread scheduling, mutexes' blocking, clock, allocator seam (simulator)",
             "effective potential replaced by a polynomial for models named toy:* (real models elsewhere)"]
    level = "exploration"
    assumptions = ["the race detector sees every access made by instrumented code; accesses inside GSL, NLopt and libstdc++ binaries are seen only at their call sites",
                   "sequentially consistent interleavings; weak-memory reorderings are covered only through the happens-before race check"]
    races = "record"

    def binaries(self):
        return ["mt"]

    def wall(self, tier):
        return 50 if tier == "quick" else 840

    def affinity(self, case):
        return case["plan"].get("model", "") + case["plan"].get("row", "")

    def shrink_seconds(self, tier):
        return 25 if tier == "quick" else 120

    def nontrivial(self, case, run):
        s = run.counts
        return s["sched.preemptions"] > 0 or s["sched.switches"] > 4 or any(k.startswith("fault.") for k in s)

    def run(self, case, run):
        plan = dict(case["plan"])
        plan["sched"] = case["sched"]
        r = run("mt", plan, case["nt"])
        self.facts(case, r, run)
        v = classify(r, self.id)
        if v:
            v.key = self.key(case, v)
            raise v

    def key(self, case, v):
        return v.kind

    def facts(self, case, r, run):
        pass

    def shrink(self, case):
        for nt in (2, 3):
            if nt < case["nt"]:
                c = copy.deepcopy(case)
                c["nt"] = nt
                yield c
        p = case["plan"]
        for k, v in (("gslfail", 0), ("gslfailT", 0), ("nloptfail", 0), ("maxsol", 1), ("maxsol", 2), ("salt", 0), ("seed", 5), ("T", 0.0), ("T", 100.0)):
            if p.get(k) not in (None, v) and not (k == "maxsol" and p[k] < v):
                c = copy.deepcopy(case)
                c["plan"][k] = v
                yield c
        if "ops" in p:
            for t in range(len(p["ops"])):
                if len(p["ops"]) > 2:
                    c = copy.deepcopy(case)
                    del c["plan"]["ops"][t]
                    yield c
                n = len(p["ops"][t])
                for a, b in ((0, n // 2), (n // 2, n)) if n > 3 else [(i, i + 1) for i in range(n)]:
                    c = copy.deepcopy(case)
                    del c["plan"]["ops"][t][a:b]
                    yield c
        s = case["sched"]
        if s.get("mode") == "pct" and s.get("depth", 0) > 1:
            c = copy.deepcopy(case)
            c["sched"]["depth"] -= 1
            yield c


class Gsl(Mt):
    id = "C01"
    rule = ("one case = one seed choosing model, parameter point, temperature, requested number of minima, worker count, pattern of failing local searches and a "
            "schedule (random preemption, priority change points, stalled workers); non-trivial if a preemption, more than four switches or a fault happened; distinct by the hash of the complete result")

    def cases(self, tier):
        return 1200 if tier == "quick" else 60000

    def gen(self, rng, i, tier):
        plan = dict(scn="gsl", T=rng.choice([0.0, 20.0, 80.0, 105.0, 112.0, 118.0, 125.0, 150.0, 400.0]),
                    maxsol=rng.choice([1, 2, 3, 5, 8, 13, 20, 50]), seed=rng.choice([5, 1, 17, rng.randrange(1 << 20)]),
                    gslfail=rng.choice([0, 0, 200, 500, 800, 950, 990, 1000]), salt=rng.randrange(1 << 20))
        plan.update(toy_model(rng))
        if i % 150 == 7:
            plan.update(with_row(rng, rng.choice(["cxsm", "sm"])), maxsol=rng.choice([1, 2, 4]), gslfail=rng.choice([0, 500]))
        return {"nt": rng.choice([2, 3, 4, 4, 6, 8]), "plan": plan, "sched": sched(rng, self.races)}

    def facts(self, case, r, run):
        if r.get("exhausted"):
            run.counts["probe.starting_points_exhausted"] += 1
        if r.get("found", 0) > case["plan"].get("maxsol", 1e9):
            run.counts["probe.more_minima_than_requested"] += 1
        if r.get("found") == 0:
            run.counts["probe.nothing_found"] += 1


class Term(Gsl):
    id = "C02"
    races = "fail"
    rule = ("one case = one seed choosing a minimisation call (multi-start search, all minimisers side by side, whole temperature search, threads sharing a model), worker count, "
            "failing local searches and a schedule; every memory access of instrumented code is a race-detector event and a preemption candidate; non-trivial if a preemption, more than four switches or a fault happened")

    def gen(self, rng, i, tier):
        k = rng.random()
        if k < 0.6:
            c = super().gen(rng, i, tier)
            if rng.random() < 0.6:  # the queue must run dry while workers are still active
                c["plan"]["gslfail"] = rng.choice([970, 990, 1000])
                c["plan"]["only"] = "terminate"
        elif k < 0.85:
            c = PROPS["C03"].gen(rng, i, tier)
        elif k < 0.93:
            c = PROPS["C12"].gen(rng, i, tier)
        else:
            c = PROPS["C04"].gen(rng, i, tier)
        c["sched"]["races"] = self.races
        return c


class Gen(Mt):
    id = "C03"
    rule = ("one case = one seed choosing model, point, temperature, the set of enabled minimisers, threading on or off, worker count, which local searches fail, whether and how NLopt fails, "
            "and a schedule; non-trivial if a preemption, more than four switches or a fault happened")

    def cases(self, tier):
        return 700 if tier == "quick" else 40000

    def gen(self, rng, i, tier):
        plan = dict(scn="gen", T=rng.choice([0.0, 50.0, 100.0, 110.0, 114.0, 118.0, 122.0, 130.0, 160.0, 250.0]),
                    which=rng.choice([2, 4, 6, 6, 6]), mt=rng.random() < 0.8, gslfail=rng.choice([0, 0, 500, 900, 1000, 1000]), salt=rng.randrange(1 << 20))
        if rng.random() < 0.4:
            plan["nloptfail"] = rng.choice([-1, -1, -2, -4, -5, 5, 6])
            plan["nloptpermille"] = rng.choice([1000, 1000, 500])
        plan.update(toy_model(rng))
        if i % 175 == 11:
            plan.update(with_row(rng, rng.choice(["cxsm", "sm"])))
        return {"nt": rng.choice([2, 3, 4, 4, 6]), "plan": plan, "sched": sched(rng, self.races)}

    def facts(self, case, r, run):
        if r.get("winner"):
            run.counts["probe.winner_" + r["winner"]] += 1


class Pt(Mt):
    id = "C12"
    rule = ("one case = one seed choosing a phase structure, temperature range, enabled minimisers, threading, failing local searches, failing NLopt calls and a schedule for the whole bisection; "
            "non-trivial if a preemption, more than four switches or a fault happened")

    def cases(self, tier):
        return 400 if tier == "quick" else 20000

    def gen(self, rng, i, tier):
        plan = dict(scn="pt", which=rng.choice([2, 6, 6, 4]), mt=rng.random() < 0.8, salt=rng.randrange(1 << 20))
        plan.update(toy_model(rng))
        if i == 0:  # the recorded finding: the only minimiser fails in some steps of the bisection
            return {"nt": 2, "plan": dict(with_row(rng, "toy:cxsm"), scn="pt", which=4, mt=True, salt=0, nloptfail=-1, nloptpermille=300, shape=[9, 0.8],
                                          tlow=50.0, thigh=300.0), "sched": {"mode": "seq", "races": self.races}}
        k = rng.random()
        if k < 0.35:
            plan["gslfail"] = rng.choice([300, 600, 800])
        elif k < 0.5:
            plan.update(gslfail=rng.choice([950, 1000]), harsh=True)
        elif k < 0.7 and plan["which"] == 6:  # in some steps of the bisection only NLopt delivers
            plan.update(gslfailT=rng.choice([100, 300, 600]), harsh=True)
        if rng.random() < 0.25 and not plan.get("gslfailT"):
            plan.update(nloptfail=rng.choice([-1, -4, 5]), nloptpermille=1000, harsh=True)
            if plan["which"] == 6 and not plan.get("gslfail"):
                plan["nloptpermille"] = rng.choice([1000, 300, 700])
        plan.update(rng.choice([{}, {}, {}, dict(tlow=0.0, thigh=200.0), dict(tlow=50.0, thigh=300.0), dict(tlow=0.0, thigh=100.0), dict(tlow=150.0, thigh=300.0)]))
        if plan["which"] == 4:
            plan["harsh"] = True
        return {"nt": rng.choice([2, 3, 4]), "plan": plan, "sched": sched(rng, self.races, 20000000)}

    def key(self, case, v):
        p = case["plan"]
        if p["which"] == 4 and p.get("nloptfail") and p.get("nloptpermille", 1000) < 1000 and v.kind in ("still-broken", "status", "not-global-at-Tc", "Tc-differs"):
            return "nlopt-only-step-failure-taken-as-symmetric"
        return v.kind

    def facts(self, case, r, run):
        if "flag" in r:
            run.counts["probe.status_%d" % r["flag"]] += 1


class Veff(Mt):
    id = "C04"
    races = "fail"
    rule = ("one case = one seed choosing a model (all six), a parameter point, 2-5 threads with their own random sequence of evaluations (potential, derivatives, masses, mass matrices, thermal "
            "functions, local minimisation) on one shared object, and a schedule at memory-access granularity; the reference is a second object evaluated alone; non-trivial if threads interleaved")
    OPS = ["V", "V", "V", "dVdT", "dV", "V0", "tree", "loop", "mh", "mg", "mq", "ml", "Mh", "ew", "ct", "nlo", "zero", "short", "therm", "local"]
    NV = {"cxsm": 3, "sm": 1, "r2hdm": 4, "c2hdm": 4, "n2hdm": 5, "cpinthedark": 5, "toy:cxsm": 3}

    def cases(self, tier):
        return 900 if tier == "quick" else 40000

    def gen(self, rng, i, tier):
        m = rng.choice(["cxsm", "sm", "r2hdm", "c2hdm", "n2hdm", "cpinthedark"])
        plan = dict(scn="veff")
        plan.update(with_row(rng, m))
        if rng.random() < 0.3 and m != "cpinthedark":
            import random
            plan["row"] = inputs.vary(random.Random(rng.randrange(3)), m)
        ops = []
        self.xs = [self.point(rng, m) for _ in range(2)]
        self.ts = [rng.uniform(20, 300), 0.0]
        dup = [[self.op(rng, m)] for _ in range(3)]
        for _ in range(rng.choice([2, 2, 3, 3, 4, 5])):
            ops.append([self.op(rng, m) if rng.random() < 0.6 else rng.choice(dup)[0] for _ in range(rng.choice([1, 3, 6, 10]))])
        plan["ops"] = ops
        return {"nt": 4, "plan": plan, "sched": sched(rng, self.races, 300000)}

    def op(self, rng, m):
        k = rng.choice(self.OPS)
        if k == "local" and rng.random() < 0.7:
            k = "V"
        x = rng.choice(self.xs) if rng.random() < 0.5 else self.point(rng, m)
        t = rng.choice(self.ts) if rng.random() < 0.4 else rng.choice([0.0, 0.0, 60.0, 120.0, rng.uniform(20, 400)])
        return [k, x, t]

    def point(self, rng, m):
        return [rng.choice([0.0, 0.0, 1e-3, 246.2, rng.uniform(-400, 400), rng.uniform(-50, 50)]) for _ in range(self.NV[m])]


class Log(Mt):
    id = "C14"
    races = "fail"
    real = ["src/utility/Logger.cpp and Logger.h (access-instrumented)", "libstdc++ ostream", "std::thread, std::mutex"]
    stubs = ["output device: a stream buffer that accepts few bytes at a time and yields between them", "thread scheduling (simulator)"]
    rule = ("one case = one seed choosing enabled levels, 2-6 writer threads with their messages and level queries, and a schedule that may preempt inside the output device; "
            "non-trivial if threads interleaved")

    def cases(self, tier):
        return 12000 if tier == "quick" else 400000

    NAMES = ["default", "minimizerdetailed", "mintracerdetailed", "transitiondetailed", "progdetailed", "debug", "gwdetailed", "bouncedetailed", "ewbgdetailed", "complete"]

    def gen(self, rng, i, tier):
        n, rounds, levels = [0], [], rng.choice([range(6), range(6), range(11)])
        quiet = rng.random() < 0.1
        for _ in range(rng.choice([1, 1, 2, 3])):
            setup = []
            for _ in range(rng.choice([0, 1, 3, 6])):
                k = rng.choice(["set", "set", "set", "map", "map", "args", "stream", "status", "status"] + (["disable"] if quiet else []))
                if k == "set":
                    setup.append([k, rng.choice(levels), int(rng.random() < 0.7)])
                elif k == "map":
                    setup.append([k, [[l, int(rng.random() < 0.6)] for l in rng.sample(list(levels), rng.choice([0, 1, 2, 4]))]])
                elif k == "args":
                    setup.append([k, [[rng.choice(self.NAMES), int(rng.random() < 0.7)] for _ in range(rng.choice([1, 1, 2, 4]))]])
                elif k == "stream":
                    setup.append([k, rng.randrange(2)])
                elif k == "status":
                    setup.append([k, rng.choice(levels)])
                else:
                    setup.append([k])
            ops = [self.writer(rng, t, levels, n) for t in range(rng.choice([2, 2, 3, 4, 6]))]
            if rng.random() < 0.2:  # somebody changes a level meanwhile
                l = rng.choice(levels)
                o = rng.choice(ops)
                for _ in range(rng.choice([1, 2, 3])):
                    o.insert(rng.randrange(len(o) + 1), ["set", l, int(rng.random() < 0.5)])
            rounds.append({"setup": setup, "ops": ops})
        return {"nt": 4, "plan": dict(scn="log", rounds=rounds), "sched": sched(rng, self.races, 20000)}

    def writer(self, rng, t, levels, n):
        o = []
        for _ in range(rng.choice([1, 2, 4, 8])):
            n[0] += 1
            f = {}
            if rng.random() < 0.3:
                f["ask"] = True
            if rng.random() < 0.15:
                f["file"] = "f%d.cpp" % n[0]
            if rng.random() < 0.15:
                f["line"] = rng.randrange(1000)
            if rng.random() < 0.1:
                f["number"] = 100000 + n[0]
            o.append([rng.choice(levels), "T%d.%d " % (t, n[0]) + "abcdefghijklmnopqrstuvwxyz"[:rng.randrange(26)] * rng.choice([1, 1, 4]), f])
        return o

    def shrink(self, case):
        R = case["plan"]["rounds"]
        for r in range(len(R)):
            if len(R) > 1:
                c = copy.deepcopy(case)
                del c["plan"]["rounds"][r]
                yield c
        for r in range(len(R)):
            for i in range(len(R[r]["setup"])):
                c = copy.deepcopy(case)
                del c["plan"]["rounds"][r]["setup"][i]
                yield c
            for t in range(len(R[r]["ops"])):
                if len(R[r]["ops"]) > 1:
                    c = copy.deepcopy(case)
                    del c["plan"]["rounds"][r]["ops"][t]
                    yield c
                for i in range(len(R[r]["ops"][t])):
                    c = copy.deepcopy(case)
                    del c["plan"]["rounds"][r]["ops"][t][i]
                    yield c
        s = case["sched"]
        if s.get("mode") == "pct" and s.get("depth", 0) > 1:
            c = copy.deepcopy(case)
            c["sched"]["depth"] -= 1
            yield c


PROPS = {p.id: p for p in (Gsl(), Term(), Gen(), Veff(), Pt(), Log())}
