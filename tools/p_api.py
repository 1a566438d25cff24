"""Histories of library calls on one object: re-initialised models (C05), phases asked in any order (C11)."""
import copy, json
import inputs
from dst import Violation
from p_out import Toy

OBS = ["stored", "ct", "scale", "vevtree", "order", "veff", "veff", "dveff", "parts", "higgs", "fermions", "debye", "nabla", "ctid", "w1", "w2", "curv",
       "triple", "signs", "ewsb", "alpha"]
LATE = ["rescale", "ct", "veff", "triple"]
SLOW = {"sm": 1.0, "cxsm": 1.0, "r2hdm": 0.5, "c2hdm": 0.5, "n2hdm": 0.12, "cpinthedark": 0.25}


class Api:
    real = ["src/models (all files)", "src/ThermalFunctions", "src/minimizer", "src/minimum_tracer", "GSL", "NLopt"]
    level = "exploration"

    def binaries(self):
        return ["api"]

    def wall(self, tier):
        return 60 if tier == "quick" else 840

    def affinity(self, case):
        return "api"

    def shrink_seconds(self, tier):
        return 40 if tier == "quick" else 150


# ------------------------------------------------------------------ models
def garbage(rng, model):
    f = inputs.split(inputs.base_row(model))
    k = rng.choice(["empty", "words", "short", "nan", "zero", "huge", "sign", "extra"])
    if k == "empty":
        return ""
    if k == "words":
        f[rng.randrange(len(f))] = "invalid"
    if k == "short":
        f = f[:rng.randrange(1, len(f))]
    if k == "nan":
        f[rng.randrange(len(f))] = "nan"
    if k == "zero":
        f[rng.randrange(len(f))] = "0"
    if k == "huge":
        f[rng.randrange(len(f))] = "1e200"
    if k == "sign":
        i = rng.randrange(len(f))
        f[i] = f[i][1:] if f[i].startswith("-") else "-" + f[i]
    if k == "extra":
        f += ["1", "2", "3"]
    return "\t".join(f)


class Model(Api):
    id = "C05"
    stubs = ["allocator (failing allocations, contents of fresh memory)"]
    assumptions = ["the reference is the same code on an object without history in another simulated process; an error that a fresh object makes as well is not seen",
                   "triple Higgs couplings are asked for in the documented order Prepare_Triple, TripleHiggsCouplings"]
    rule = "a case is non-trivial if the object was loaded or used before the final initialisation; cases count once per distinct outcome digest"

    def cases(self, tier):
        return 500 if tier == "quick" else 20000

    def final(self, rng, model, tier):
        obs = list(OBS)
        if model in ("sm", "cxsm") and rng.random() < (0.05 if tier == "quick" else 0.2):
            obs.append("w4")
        if rng.random() < 0.5:
            obs.append("w3")
        if rng.random() < (0.3 if SLOW[model] > 0.4 else 0.06):
            obs.append("min")
        rng.shuffle(obs)
        return [{"op": "obs", "what": o, "seed": rng.randrange(10 ** 6)} for o in obs + LATE]

    def load(self, rng, model):
        r = rng.random()
        row = inputs.base_row(model) if r < 0.25 else inputs.vary(rng, model, rng.choice([0.3, 1.0, 3.0]))
        return {"op": "init", "row": row}

    def gen(self, rng, i, tier):
        model = rng.choice(["cxsm"] * 5 + ["sm"] * 3 + ["r2hdm"] * 4 + ["c2hdm"] * 4 + ["n2hdm", "cpinthedark"])
        steps = []
        for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
            r = rng.random()
            if r < 0.35 or not steps:
                steps.append(self.load(rng, model))
            elif r < 0.47:
                steps.append({"op": "init", "row": garbage(rng, model)})
            elif r < 0.53:
                steps.append({"op": "initpar", "seed": rng.randrange(1000)})
            elif r < 0.64:
                s = self.load(rng, model)
                s["env"] = {"alloc_fail": int(2 ** rng.uniform(0, 13)), "alloc_fail_len": rng.choice([1, 1, 3, 10 ** 9])}
                steps.append(s)
            else:
                w = rng.choice(["veff", "dveff", "parts", "higgs", "debye", "triple", "triple", "signs", "rescale", "rescale", "setscale", "setall", "alpha", "w2", "w3", "min" if SLOW[model] > 0.4 else "nabla"])
                s = {"op": "obs", "what": w, "seed": rng.randrange(10 ** 6)}
                if rng.random() < 0.12:
                    s["env"] = {"alloc_fail": int(2 ** rng.uniform(0, 12)), "alloc_fail_len": rng.choice([1, 1, 10 ** 9])}
                    if w == "min":
                        s["what"] = "triple"
                steps.append(s)
        load = self.load(rng, model)
        if rng.random() < 0.35:  # the row the object held before
            load["row"] = rng.choice([s["row"] for s in steps if s.get("row") and s["op"] == "init"] or [load["row"]])
        again = []
        if rng.random() < 0.2:  # the point it holds is set again by its parameters, after the object was used
            for _ in range(rng.choice([1, 1, 2, 4])):
                again.append({"op": "obs", "what": rng.choice(["rescale", "rescale", "setscale", "setall", "triple", "veff", "debye", "ct", "w2", "signs"]), "seed": rng.randrange(10 ** 6)})
        return {"kind": "model", "model": model, "steps": steps, "load": load, "by_vector": rng.random() < 0.25, "again": again,
                "final": self.final(rng, model, tier), "poison": [rng.choice([-1, 0, 0x55, 0xff]) for _ in range(2)]}

    def plan(self, case, history, poison):
        p = {"kind": "model", "model": case["model"], "legend": inputs.legend(case["model"]), "steps": case["steps"] if history else [],
             "final": [case["load"]] + ([{"op": "initpar"}] if case["by_vector"] else []) + case["final"]}
        if case.get("again"):
            p["steps"] = p["steps"] + [case["load"]] + (case["again"] if history else [])
            p["final"] = [{"op": "initpar"}] + case["final"]
        if poison >= 0:
            p["env"] = {"poison": poison, "stack": poison}
            for s in p["steps"] + p["final"]:
                s["env"] = dict(s.get("env", {}), poison=poison, stack=poison)
        return p

    def run(self, case, run):
        a = run("api", self.plan(copy.deepcopy(case), False, case["poison"][0]))
        b = run("api", self.plan(copy.deepcopy(case), True, case["poison"][1]))
        if a["status"] != "ok" or b["status"] != "ok":
            run.counts["probe.not-comparable"] += 1
            if a["status"] == "ok" and b["status"] == "signal" and not any("row" in s or s.get("env") for s in case["steps"]):
                raise Violation("dies-after-history", "%s: the history %s ends the process with signal %s" % (case["model"], json.dumps(case["steps"])[:400], b.get("signal")))
            return
        for s, r in zip(case["steps"], b["steps"]):
            if "threw" in r:
                run.counts["probe.step-failed" + (":" + s["op"])] += 1
        if any("HARNESS" in json.dumps(x) for x in (a["final"], b["final"])):
            raise Exception(json.dumps(a)[:500])
        run.counts["probe.loaded" if "threw" not in a["final"][0] else "probe.load-failed"] += 1
        run.sets["model"].add(case["model"])
        plan = self.plan(case, False, -1)
        for s, x, y in zip(plan["final"], a["final"], b["final"]):
            if x != y:
                what = s.get("what", s["op"])
                raise Violation("remembers:" + what, "%s: after the history %s the object gives for %s (seed %s) %s, a fresh object loaded with the same row gives %s" % (
                    case["model"], json.dumps([{k: (v if k != "row" else v[:60]) for k, v in s.items()} for s in case["steps"] + (case.get("again") or [])])[:700], what, s.get("seed"), json.dumps(y)[:200], json.dumps(x)[:200]),
                    "remembers")

    def nontrivial(self, case, run):
        return bool(case["steps"]) and bool(run.counts["probe.loaded"])

    def shrink(self, case):
        for k in ("steps", "again"):
            for i in range(len(case.get(k) or [])):
                c = copy.deepcopy(case)
                del c[k][i]
                yield c
        n = len(case["final"])
        for k in (2, 1):
            if n > k:
                for i in range(0, n, max(1, n // (2 * k))):
                    c = copy.deepcopy(case)
                    del c["final"][i:i + max(1, n // (2 * k))]
                    yield c
        for i in range(n if n < 8 else 0):
            c = copy.deepcopy(case)
            del c["final"][i]
            yield c
        for i, s in enumerate(case["steps"]):
            if s.get("env"):
                c = copy.deepcopy(case)
                del c["steps"][i]["env"]
                yield c
        if case["poison"] != [-1, -1]:
            c = copy.deepcopy(case)
            c["poison"] = [-1, -1]
            yield c


# ------------------------------------------------------------------ phases
class Phases(Api):
    id = "C11"
    stubs = ["effective potential replaced by a polynomial with calculable phases (everything else of the model is real); in a share of cases the real potential"]
    assumptions = ["a query within 2e-5 GeV of a stored temperature may be answered with the stored minimum (tracker resolution)",
                   "within max(0.01 GeV, 0.1%) of the ends of a phase, where its minimum degenerates, a query may be answered with another point of that rim",
                   "points are compared up to the sign symmetries the tracer itself uses, within 0.1 GeV"]
    rule = "a case is non-trivial if queries inserted new points into the phase; cases count once per distinct outcome digest"
    TOL_T, TOL_X = 2e-5, 0.1

    def cases(self, tier):
        return 700 if tier == "quick" else 30000

    def gen(self, rng, i, tier):
        real = rng.random() < 0.06
        var = rng.choice(list(range(10)) + list(range(10, 56)) + list(range(60, 80)))
        model = rng.choice(["cxsm", "cxsm", "cxsm", "sm", "r2hdm", "c2hdm", "n2hdm", "cpinthedark"])
        if var >= 60 and model == "sm":
            model = "cxsm"
        if real:
            model = rng.choice(["cxsm", "sm"])
        ctor = rng.choice(["glob", "glob", "range", "range", "up", "down"] + ["range-glob", "up-glob"] * (rng.random() < 0.1))
        lo, hi = rng.choice([(0, 300), (0, 300), (0, 200), (20, 250), (0, 120)])
        T0 = {"up": lo, "up-glob": lo, "down": hi}.get(ctor, rng.choice([lo, hi, lo + rng.random() * (hi - lo)]))
        q = []
        style = rng.choice(["mixed", "mixed", "dense", "bisect", "edges", "out"])
        n = rng.choice([3, 6, 10, 20])
        if style == "bisect":
            a, b = 0.0, 1.0
            for _ in range(n):
                m = (a + b) / 2
                q.append({"rel": m})
                if rng.random() < 0.5:
                    a = m
                else:
                    b = m
        else:
            base = rng.random()
            for _ in range(n):
                r = rng.random()
                if style == "dense":
                    q.append({"rel": min(1.0, max(0.0, base + rng.choice([1, -1]) * 10 ** rng.uniform(-8, -1)))})
                elif style == "edges" and r < 0.7:
                    q.append({"rel": rng.choice([0.0, 1.0, 1 - 10 ** rng.uniform(-9, -1), 10 ** rng.uniform(-9, -1)])})
                elif style == "out" and r < 0.3:
                    q.append({"rel": rng.choice([-0.1, 1.1, 1 + 10 ** rng.uniform(-6, -1), -10 ** rng.uniform(-6, -1)]), "out": True})
                elif r < 0.45:
                    q.append({"rel": rng.random()})
                elif r < 0.75:
                    q.append({"knot": rng.randrange(400), "off": rng.choice([1, -1]) * 10 ** rng.uniform(-10, 0) * (rng.random() < 0.9)})
                else:
                    q.append({"again": rng.randrange(50)})
        for x in rng.sample(q, min(len(q), 2 if "glob" in ctor[2:] else 4)):
            if not x.get("out"):
                x["fresh"] = True
        c = {"kind": "phase", "model": ("" if real else "toy:") + model, "legend": inputs.legend(model),
             "row": inputs.vary(rng, model, 0.5) if real else inputs.base_row(model), "min": rng.choice([2, 2, 6, 4]),
             "make": {"ctor": ctor, "T0": T0, "lo": lo, "hi": hi}, "queries": q}
        if not real:
            c["shape"] = [var, round(rng.random(), 3)]
        return c

    def run(self, case, run):
        r = run("api", case)
        if r["status"] != "ok":
            raise Violation("no-answer", "%s: the queries %s end with %s" % (case["model"], json.dumps(case["queries"])[:300], json.dumps(r)[:400]))
        if r.get("empty"):
            run.counts["probe.empty-phase"] += 1
            return
        toy = Toy(r["shape"]) if r.get("shape") else None
        kn = r["before"]["knots"]
        lo, hi = kn[0]["T"], kn[-1]["T"]
        run.counts["probe.knots"] += len(kn)
        where = "%s shape %s, phase %s traced over %.10g..%.10g" % (case["model"], case.get("shape"), case["make"], lo, hi)
        outside = False

        def bad(kind, text):
            raise Violation(kind, where + ": " + text)

        def check_phase(ph, when):
            ks = ph["knots"]
            if (ph["T_low"], ph["T_high"]) != (ks[0]["T"], ks[-1]["T"]):
                bad("range", "%s the range is %.17g..%.17g, the stored points span %.17g..%.17g" % (when, ph["T_low"], ph["T_high"], ks[0]["T"], ks[-1]["T"]))
            for a, b in zip(ks, ks[1:]):
                if not a["T"] < b["T"]:
                    bad("order", "%s the stored temperatures are not increasing: %.17g, %.17g" % (when, a["T"], b["T"]))
            for k in ks[1:-1]:
                if k["edge"]:
                    bad("edge", "%s a point inside the phase (T = %.10g) is marked as its edge" % (when, k["T"]))
            m = case["make"]
            if not outside and (ks[0]["T"] < min(m["lo"], m["hi"]) - 1e-9 or ks[-1]["T"] > max(m["lo"], m["hi"]) + 1e-9):
                bad("range", "%s points outside the requested range are stored: %.10g..%.10g" % (when, ks[0]["T"], ks[-1]["T"]))
        check_phase(r["before"], "after tracing")
        n = len(kn)
        for i, (q, a) in enumerate(zip(case["queries"], r["queries"])):
            outside = outside or q.get("out", False)
            say = "query %d for T = %.17g" % (i, a["ask"])
            if not a["ordered"]:
                bad("order", say + " leaves the stored points unordered")
            if (a["lo"], a["hi"]) != (a["front"], a["back"]):
                bad("range", say + " leaves the range %.17g..%.17g while the stored points span %.17g..%.17g" % (a["lo"], a["hi"], a["front"], a["back"]))
            if abs(a["V"] - a["Vat"]) > 1e-11 * abs(a["Vat"]) + 1e-6:
                bad("potential", say + " reports the potential %.17g; it is %.17g at the reported point %s" % (a["V"], a["Vat"], a["p"]))
            if a["n"] < n:
                bad("lost", say + " reduces the stored points from %d to %d" % (n, a["n"]))
            if a["n"] > n:
                run.counts["probe.inserted"] += a["n"] - n
            n = a["n"]
            # where a phase ends its minimum degenerates and the tracker stops short of it
            rim = max(0.01, 1e-3 * (hi - lo))
            rim = rim if min(a["ask"] - lo, hi - a["ask"]) < rim else 0.0
            if not q.get("out") and abs(a["T"] - a["ask"]) > self.TOL_T + rim:
                bad("other-temperature", say + " (inside the phase) is answered with a minimum at %.17g" % a["T"])
            f = a.get("fresh")
            if f:
                run.counts["probe.fresh"] += 1
                if abs(f["T"] - a["T"]) > 2 * self.TOL_T + rim:
                    bad("history", say + " is answered at T = %.17g; a phase asked nothing else answers at %.17g" % (a["T"], f["T"]))
                d = max(abs(abs(x) - abs(y)) for x, y in zip(a["p"], f["p"]))
                if d > self.TOL_X and not rim:
                    bad("history", say + " gives %s; a phase asked nothing else gives %s" % (a["p"], f["p"]))
            if toy and not q.get("out"):
                # stationary, or next to a minimum (where a phase ends the minimum disappears)
                g = sum(x * x for x in toy.grad(a["p"], a["T"])) ** 0.5 / (1 + a["T"] ** 2) / toy.n
                d = toy.distance_to_minimum(a["p"], a["T"]) if g > (0.05 if rim else 2e-3) else 0.0
                run.counts["probe.minimum"] += 1
                if d > 5 * self.TOL_X:
                    bad("no-minimum", say + " gives %s, which is %.3g GeV from a minimum" % (a["p"], d))
        check_phase(r["after"], "after the queries")
        for k, v in zip(r["after"]["knots"], r["after"]["Vat"]):
            if abs(k["V"] - v) > 1e-11 * abs(v) + 1e-6:
                bad("potential", "the stored point at T = %.10g carries the potential %.17g; it is %.17g" % (k["T"], k["V"], v))
        T0 = kn and {round(k["T"], 12): k for k in r["after"]["knots"]}
        for k in kn:
            z = T0.get(round(k["T"], 12))
            if not z or z["p"] != k["p"] or z["V"] != k["V"]:
                bad("lost", "the traced point at T = %.17g is changed or gone after the queries" % k["T"])

    def nontrivial(self, case, run):
        return bool(run.counts["probe.inserted"])

    def shrink(self, case):
        n = len(case["queries"])
        for k in (2, 4, n):
            s = max(1, n // k) if k else 1
            for i in range(0, n, s):
                if n > 1:
                    c = copy.deepcopy(case)
                    del c["queries"][i:i + s]
                    yield c
        for ctor in ("up", "glob"):
            if case["make"]["ctor"] != ctor:
                c = copy.deepcopy(case)
                c["make"]["ctor"] = ctor
                yield c


PROPS = {p.id: p for p in (Model(), Phases())}
