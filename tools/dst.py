#!/usr/bin/env python3
"""Seeded deterministic simulation of BSMPT: search, gate, minimise, replay.

  dst.py check PROP [--tier quick|thorough]   search for violations of PROP
  dst.py replay FILE                          re-execute a recorded violation
  dst.py selftest [PROP...]                   same seed twice, in other processes and another order: identical?

Exit status: 0 held on everything explored, 1 violation, 2 no answer.
"""
import argparse, collections, copy, hashlib, importlib, json, os, queue, random, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build as builder

WORKERS = int(os.environ.get("BSIM_WORKERS", "8"))
KNOWN = os.path.join(HERE, "known_findings.json")


class NoAnswer(Exception):
    pass


class Server:
    """one serving process; every plan runs in a forked child of it"""

    def __init__(self, exe, nt):
        env = dict(os.environ, BSIM_NT=str(nt), LC_ALL="C", OMP_NUM_THREADS="1")
        env.pop("BSIM_NOASLR", None)
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env)
        self.n = 0

    def ask(self, plan):
        self.n += 1
        self.p.stdin.write((json.dumps(plan) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p.wait()
            self.err.seek(0)
            raise NoAnswer("serving process ended with %s: %s" % (self.p.returncode, self.err.read()[-500:]))
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()


class Runner:
    """executes plans; owns one server per (binary, hardware concurrency)"""

    def __init__(self, bins):
        self.bins = bins
        self.servers = {}
        self.order = []

    def ask(self, binary, plan, nt=4):
        k = (binary, nt)
        if k not in self.servers:
            if len(self.order) > 14:
                self.drop(self.order[0])
            self.servers[k] = Server(self.bins[binary], nt)
            self.order.append(k)
        try:
            return self.servers[k].ask(plan)
        except (NoAnswer, BrokenPipeError, ValueError):
            self.drop(k)
            raise

    def drop(self, k):
        s = self.servers.pop(k, None)
        if k in self.order:
            self.order.remove(k)
        if s:
            s.close()

    def close(self):
        for k in list(self.servers):
            self.drop(k)


class Run:
    """what one case execution sees: run plans, collect facts"""

    def __init__(self, runner):
        self.runner = runner
        self.h = hashlib.sha256()
        self.counts = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.sim_ns = 0
        self.results = []

    def __call__(self, binary, plan, nt=4):
        r = None
        for attempt in (0, 1, 2):
            try:
                r = self.runner.ask(binary, plan, nt)
            except (NoAnswer, BrokenPipeError) as e:
                if attempt == 2:
                    raise NoAnswer(str(e))
                continue
            slow = r.get("status") == "timeout" or (r.get("status") == "signal" and r.get("signal") == 9)  # wall time, memory: depend on the machine
            if r.get("status") != "error" and not (slow and attempt == 0 and not plan.get("no_retry")):
                break
        if r.get("status") == "error":
            raise NoAnswer("harness error: %s" % json.dumps(r)[:600])
        self.h.update(json.dumps(r, sort_keys=True).encode())
        c = self.counts
        c["runs"] += 1
        c["status." + r.get("status", "?")] += 1
        rt = r.get("rt", {})
        io = rt.get("io", {})
        for k, v in (io.get("fired") or {}).items():
            c["fault." + k] += v
        if r.get("status") == "crashed":
            c["fault.crash:" + " ".join(w for w in r.get("why", "?").split() if not w.isdigit())] += 1
        env = rt.get("env") or {}
        if env.get("alloc_failed"):
            c["fault.alloc:fail"] += env["alloc_failed"]
        if env.get("thread_failed"):
            c["fault.thread:fail"] += env["thread_failed"]
        self.sim_ns += env.get("sim_ns") or 0
        s = rt.get("sched")
        if s:
            c["sched.steps"] += s["steps"]
            c["sched.switches"] += s["switches"]
            c["sched.preemptions"] += s["preempts"]
            c["sched.contended_locks"] += s["contended"]
            c["sched.stalls"] += s["stalls"]
            c["sched.threads"] += s["threads"]
            if s["preempts"] or s["switches"] > 2:
                self.sets["interleavings"].add(s["hash"])
        for k in ("gsl_failed", "nl_failed"):
            if r.get(k):
                c["fault.optimiser:" + k.split("_")[0]] += r[k]
        self.results.append(r)
        return r

    def digest(self):
        return self.h.hexdigest()[:32]


class Violation(Exception):
    def __init__(self, kind, detail, key=None):
        super().__init__(kind)
        self.kind, self.detail, self.key = kind, detail, key or kind


def execute(mod, case, runner):
    """-> (violation or None, Run)"""
    run = Run(runner)
    try:
        mod.run(copy.deepcopy(case), run)
    except Violation as v:
        run.h.update(v.kind.encode())
        return v, run
    return None, run


# ---------------------------------------------------------------- minimising
def size(case):
    return len(json.dumps(case))


def minimise(mod, case, viol, runner, seconds):
    """greedy over the property's own candidates, then delta debugging of schedules"""
    end = time.time() + seconds
    best, bv, tries = case, viol, 0

    def holds(c):
        nonlocal tries
        tries += 1
        try:
            v, r = execute(mod, c, runner)
        except NoAnswer:
            return None
        return (v, r) if v and v.key == viol.key else None

    progress = True
    while progress and time.time() < end:
        progress = False
        for c in mod.shrink(copy.deepcopy(best)):
            if time.time() > end:
                break
            if json.dumps(c, sort_keys=True) == json.dumps(best, sort_keys=True):
                continue
            got = holds(c)
            if got:
                best, bv, progress = c, got[0], True
                break
    # pin the schedule: replay exactly the recorded decisions, then drop what is not needed
    sc = best.get("sched")
    if isinstance(sc, dict) and sc.get("mode") in ("rw", "pct", "stall"):
        v, r = execute(mod, best, runner)
        dec = None
        for x in reversed(r.results):
            s = x.get("rt", {}).get("sched")
            if s and s.get("decisions"):
                dec = s["decisions"]
                break
        if v and dec is not None:
            def with_dec(d):
                c = copy.deepcopy(best)
                c["sched"] = {"mode": "replay", "decisions": d}
                for k in ("races", "budget"):
                    if k in sc:
                        c["sched"][k] = sc[k]
                return c
            if holds(with_dec(dec)):
                cur, n = dec, 2
                if holds(with_dec([])):
                    cur = []
                while len(cur) >= 1 and time.time() < end:
                    step = max(1, len(cur) // n)
                    cut = False
                    for i in range(0, len(cur), step):
                        if time.time() > end:
                            break
                        t = cur[:i] + cur[i + step:]
                        if holds(with_dec(t)):
                            cur, cut = t, True
                            n = max(2, n - 1)
                            break
                    if not cut:
                        if step == 1:
                            break
                        n = min(len(cur), n * 2)
                best = with_dec(cur)
    v, r = execute(mod, best, runner)
    if not (v and v.key == viol.key):
        return case, viol, tries
    return best, v, tries


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN))["findings"] if k["property"] == prop]


def is_known(known, v):
    for k in known:
        if k["key"] == v.key:
            return k
    return None


# ---------------------------------------------------------------- checking
def load(prop):
    for m in ("p_mt", "p_tool", "p_out", "p_api"):
        mod = importlib.import_module(m)
        if prop in mod.PROPS:
            return mod.PROPS[prop]
    raise SystemExit("unknown property %s" % prop)


def case_rng(seed, prop, i):
    return random.Random("%s/%s/%s" % (seed, prop, i))


def check(prop, tier, seed):
    t0 = time.time()
    mod = load(prop)
    try:
        bins = builder.build(set(mod.binaries()))
    except builder.BuildError as e:
        print("the simulation does not build against the current tree:\n" + str(e)[-4000:])
        return 2
    tb = time.time() - t0
    known = known_findings(prop)
    n = mod.cases(tier)
    wall = float(os.environ.get("BSIM_WALL", mod.wall(tier)))
    lock = threading.Lock()
    groups, alive = {}, {}
    for i in range(n):  # cases that share expensive set-up stay with the same workers
        groups.setdefault(mod.affinity(mod.gen(case_rng(seed, prop, i), i, tier)), collections.deque()).append(i)

    def next_case(mine):
        if mine[0] is not None and groups[mine[0]]:
            return groups[mine[0]].popleft()
        if mine[0] is not None:
            alive[mine[0]] -= 1
        left = [g for g in groups if groups[g]]
        if not left:
            mine[0] = None
            return None
        g = max(left, key=lambda g: (len(groups[g]) / (1.0 + alive.get(g, 0)), str(g)))
        mine[0] = g
        alive[g] = alive.get(g, 0) + 1
        return groups[g].popleft()
    total = Run(None)
    state = {"done": 0, "stop": False, "err": None}
    viols, seen_known = [], {}
    nontriv, samples = set(), []
    t1 = time.time()

    def worker():
        runner = Runner(bins)
        mine = [None]
        try:
            while True:
                with lock:
                    if state["stop"] or time.time() - t1 > wall:
                        return
                    i = next_case(mine)
                    if i is None:
                        return
                case = mod.gen(case_rng(seed, prop, i), i, tier)
                try:
                    v, r = execute(mod, case, runner)
                except NoAnswer as e:
                    with lock:
                        state["err"] = "case %d: %s\n%s" % (i, e, json.dumps(case)[:1500])
                        state["stop"] = True
                    return
                with lock:
                    state["done"] += 1
                    total.counts.update(r.counts)
                    total.sim_ns += r.sim_ns
                    for k, s in r.sets.items():
                        total.sets[k] |= s
                    if mod.nontrivial(case, r):
                        nontriv.add(r.digest())
                    if i < 2 or (i % max(1, n // 4) == 0 and len(samples) < 6):
                        samples.append({"case": i, "plan": trim(case), "outcome": v.kind if v else "held"})
                    if v:
                        k = is_known(known, v)
                        if k:
                            seen_known.setdefault(k["key"], (k, i, v))
                            continue
                        viols.append((i, case, v, r.digest()))
                        if len(viols) >= 3:
                            state["stop"] = True
                        if len(viols) == 1:
                            state["deadline"] = time.time() + 5
                    if viols and time.time() > state["deadline"]:
                        state["stop"] = True
        except Exception:
            with lock:
                state["err"] = traceback.format_exc()
                state["stop"] = True
        finally:
            runner.close()

    th = [threading.Thread(target=worker) for _ in range(WORKERS)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    search = time.time() - t1
    if state["err"] and not viols:
        print("no answer: " + state["err"])
        return 2

    rc, vlist = 0, []
    viols.sort(key=lambda x: x[0])
    done_keys = set()
    for i, case, v, dig in viols:
        if v.key in done_keys:
            continue
        done_keys.add(v.key)
        # gate: the same case twice more, in new processes, must do exactly the same
        same, again = True, None
        for _ in range(2):
            runner = Runner(bins)
            try:
                v2, r2 = execute(mod, case, runner)
            except NoAnswer as e:
                v2, r2 = None, None
            runner.close()
            if not v2 or v2.key != v.key:
                again = "not reproduced"
            elif r2.digest() != dig:
                same = False
        if again:
            print("no answer: case %d reported %s (%s) but a repetition did not reproduce it" % (i, v.kind, v.detail[:400]))
            rc = max(rc, 2) if rc != 1 else 1
            continue
        runner = Runner(bins)
        small, sv, tries = minimise(mod, case, v, runner, mod.shrink_seconds(tier))
        runner.close()
        runner = Runner(bins)
        fv, fr = execute(mod, small, runner)
        runner.close()
        if not fv:
            small, sv = case, v
            runner = Runner(bins)
            fv, fr = execute(mod, small, runner)
            runner.close()
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s-%d.json" % (prop, tier, i))
        rep = {"property": prop, "seed": seed, "case_index": i, "violation": {"kind": sv.kind, "detail": sv.detail, "key": sv.key},
               "digest": fr.digest(), "case": small, "original_case": case, "bitwise_repeatable": same, "minimisation_steps": tries}
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        vlist.append({"replay": os.path.relpath(path, HERE), "kind": sv.kind, "detail": sv.detail[:600]})
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)))
        print("  %s: %s" % (sv.kind, sv.detail[:1500]))
        print("  case %d of seed %d, minimised in %d steps to: %s" % (i, seed, tries, json.dumps(trim(small))[:1500]))
        rc = 1
    for k in known:
        if k["key"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        elif rc == 0:
            print("note: the known finding %s was not met in this run" % k["key"])
    c = total.counts
    cov = {"evaluations": c["runs"], "distinct_nontrivial": len(nontriv), "rule": mod.rule, "samples": samples,
           "cases": state["done"], "cases_planned": n, "cut_by_time": state["done"] < n and not viols,
           "runs_per_hour": int(c["runs"] / max(search, 1e-3) * 3600), "seeds_per_hour": int(state["done"] / max(search, 1e-3) * 3600),
           "simulated_time_s": round(total.sim_ns / 1e9, 3),
           "scheduler_steps": c["sched.steps"], "context_switches": c["sched.switches"], "preemptions": c["sched.preemptions"],
           "contended_locks": c["sched.contended_locks"], "threads_simulated": c["sched.threads"],
           "distinct_interleavings": len(total.sets["interleavings"]),
           "faults_fired": {k[6:]: v for k, v in sorted(c.items()) if k.startswith("fault.")},
           "outcomes": {k[7:]: v for k, v in sorted(c.items()) if k.startswith("status.")},
           "probes": {k[6:]: v for k, v in sorted(c.items()) if k.startswith("probe.")},
           "distinct": {k: len(v) for k, v in sorted(total.sets.items())},
           "real_components": mod.real, "stubbed_components": mod.stubs,
           "build_s": round(tb, 1), "search_s": round(search, 1), "workers": WORKERS}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.level, "coverage": cov, "wall_s": round(time.time() - t0, 1),
          "assumptions": mod.assumptions, "violations": vlist}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d simulated runs, %d distinct non-trivial, %d interleavings, faults %s; build %.0fs search %.0fs%s" % (
        prop, tier, seed, state["done"], c["runs"], len(nontriv), cov["distinct_interleavings"], json.dumps(cov["faults_fired"]), tb, search,
        " (cut by time)" if cov["cut_by_time"] else ""))
    return rc


def trim(case):
    s = json.dumps(case)
    if len(s) < 4000:
        return case

    def cut(x):
        if isinstance(x, str) and len(x) > 300:
            return x[:300] + "...(%d bytes)" % len(x)
        if isinstance(x, list) and len(x) > 12:
            return [cut(y) for y in x[:12]] + ["...(%d entries)" % len(x)]
        if isinstance(x, dict):
            return {k: cut(v) for k, v in x.items()}
        if isinstance(x, list):
            return [cut(y) for y in x]
        return x
    return cut(case)


def replay(path):
    rep = json.load(open(path))
    mod = load(rep["property"])
    bins = builder.build(set(mod.binaries()))
    runner = Runner(bins)
    v, r = execute(mod, rep["case"], runner)
    runner.close()
    if not v:
        print("replay: the property held; recorded was %s" % rep["violation"]["kind"])
        return 0
    print("VIOLATION property=%s replay=%s" % (rep["property"], path))
    print("  %s: %s" % (v.kind, v.detail[:3000]))
    print("  %s" % ("identical to the recorded execution" if r.digest() == rep["digest"] else "same property, other execution (the tree or the toolchain differs)"))
    return 1


def selftest(props, n, seed):
    """every case twice: other process, other order, other neighbours"""
    bad = 0
    for prop in props:
        mod = load(prop)
        bins = builder.build(set(mod.binaries()))
        todo = list(range(n))

        def sweep(order, workers):
            res, it, lock = {}, iter(order), threading.Lock()

            def work():
                runner = Runner(bins)
                while True:
                    with lock:
                        i = next(it, None)
                    if i is None:
                        break
                    v, r = execute(mod, mod.gen(case_rng(seed, prop, i), i, "quick"), runner)
                    res[i] = (r.digest(), v.kind if v else None)
                runner.close()
            ts = [threading.Thread(target=work) for _ in range(workers)]
            [t.start() for t in ts]
            [t.join() for t in ts]
            return res
        a = sweep(todo, 8)
        b = sweep(list(reversed(todo)), 3)
        diff = [i for i in todo if a[i] != b[i]]
        print("%s: %d cases, %d differ %s" % (prop, n, len(diff), diff[:10]), flush=True)
        bad += len(diff)
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "selftest", "case"])
    ap.add_argument("args", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("-n", type=int, default=24)
    a = ap.parse_args()
    if a.cmd == "check":
        try:
            sys.exit(check(a.args[0], a.tier, a.seed))
        except builder.BuildError as e:
            print(e)
            sys.exit(2)
    if a.cmd == "replay":
        sys.exit(replay(a.args[0]))
    if a.cmd == "selftest":
        sys.exit(selftest(a.args, a.n, a.seed))
    if a.cmd == "case":  # one generated case, for looking at it
        mod = load(a.args[0])
        bins = builder.build(set(mod.binaries()))
        i = int(a.args[1])
        case = mod.gen(case_rng(a.seed, a.args[0], i), i, a.tier)
        runner = Runner(bins)
        t = time.time()
        v, r = execute(mod, case, runner)
        runner.close()
        print(json.dumps(case)[:3000])
        print(v and (v.kind, v.detail), dict(r.counts), round(time.time() - t, 2))


if __name__ == "__main__":
    import dst  # one module identity for the property modules and this file
    dst.main()
