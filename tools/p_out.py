"""What the programs write, judged against the simulated potential: transition temperatures (C13), tables (C16)."""
import copy, itertools, json, math, os
import inputs
from dst import Violation
from p_tool import (ALL, IN, NVEV, OUT, REAL, REWRITE, SINGLE, STUBS, TABLE, Parsed, Skip, ToolProp, cpu_limited, died, legend_of, num, options, outs, plan, real_row, scenario, cxsm_row, sm_row, table)
from potential import Toy

VEVS = {"cxsm": ["omega", "omega_s", "omega_a"], "sm": ["omega"], "r2hdm": ["omega_CB", "omega_1", "omega_2", "omega_CP"], "c2hdm": ["omega_CB", "omega_1", "omega_2", "omega_CP"],
        "n2hdm": ["omega_{CB}", "omega_{CP}", "omega_1", "omega_2", "omega_s"], "cpinthedark": ["omega_{CB}", "omega_1", "omega_2", "omega_{CP}", "omega_S"]}
# the columns of BSMPT: temperature, norm, ratio, vevs
TEMPS = {"cxsm": ["T_c", "v_c", "omega_c/T_c", "omega_c", "omega_sc", "omega_ac"], "sm": ["T_c", "v_c", "omega_c/T_c", "omega_c"]}
for _m in ("r2hdm", "c2hdm", "n2hdm"):
    TEMPS[_m] = ["T_c", "omega_c", "omega_c/T_c"] + [n + "(T_c)" for n in VEVS[_m]]
TEMPS["cpinthedark"] = ["T_c", "v_c", "v_c/T_c"] + [n + "(T_c)" for n in VEVS["cpinthedark"]]
STAGES = ("crit", "nucl_approx", "nucl", "perc", "compl")
VMIN = 0.1  # GeV: a reported vev may be this far from the minimum it stands for


def val(s):
    """a number, or None for what stands for no value"""
    x = num(s)
    return None if x is None or x != x else x


def close(a, b, rel=1e-5, abs_=1e-9):
    return abs(a - b) <= rel * max(abs(a), abs(b)) + abs_


def opt(sc, name, default=None):
    for o in sc["opts"]:
        if o.startswith("--%s=" % name):
            return o.split("=", 1)[1]
    return default


def ew_norm(sc, v):
    d = {"cxsm": [0], "sm": [0]}.get(sc["model"], range(4))
    return math.sqrt(sum(v[i] * v[i] for i in d))


# ------------------------------------------------------------------ rows of CalcTemps and CalcGW
class Transitions:
    """one result row; every check raises on the first contradiction"""

    def __init__(self, sc, names, vals, toy, where):
        self.sc, self.toy, self.where = sc, toy, where
        self.d = {}
        for n, v in zip(names, vals):
            if n in self.d:
                self.bad("duplicate-column", "the header names %s twice" % n)
            self.d[n] = v
        self.vn = VEVS[sc["model"]]
        self.thigh = float(opt(sc, "thigh", 300))
        self.vwall = float(opt(sc, "vwall", 0.95))

    def bad(self, kind, text):
        raise Violation(kind, "%s, %s: %s" % (self.sc["tool"], self.where, text), kind + ":" + self.sc["tool"])

    def get(self, n):
        if n not in self.d:
            self.bad("missing-column", "no column %s" % n)
        return self.d[n]

    def pairs(self):
        i = 0
        while "status_crit_%d" % i in self.d:
            i += 1
        return i

    def vevs(self, stage, side, i):
        return [self.get("%s_%s_%s_%d" % (n, stage, side, i)) for n in self.vn]

    def check(self):
        d = self.d
        nlo, ewsr, tr, co = (self.get("status_" + x) for x in ("nlo_stability", "ewsr", "tracing", "coex_pairs"))
        gated = None
        if opt(self.sc, "checknlo", "on") == "off":
            if nlo != "off":
                self.bad("status", "the stability check is switched off, its status is %s" % nlo)
        elif nlo not in ("success", "no_nlo_stability"):
            self.bad("status", "stability was to be checked, its status is %s" % nlo)
        elif self.toy:
            e, m = self.toy.global_minimum(0)
            v0 = 246.21965
            target = abs(ew_norm(self.sc, m) - v0)
            ok = nlo == "success"
            if target < 0.5 and not ok or target > 60 and ok:
                self.bad("status-nlo", "status_nlo_stability is %s, the global minimum at zero temperature is %s" % (nlo, ["%.6g" % x for x in m]))
        if nlo == "no_nlo_stability":
            gated = "the point is not stable"
        mode = opt(self.sc, "checkewsr", "on")
        if gated is None:
            if (mode == "off") != (ewsr == "off"):
                self.bad("status", "symmetry restoration check %s, status %s" % (mode, ewsr))
        if gated is None and (mode == "keep_bfb" and ewsr in ("failure", "non_bfb") or mode == "keep_ewsr" and ewsr != "ew_sym_res" and ewsr in ("failure", "non_bfb", "flat_region", "ew_sym_non_res")):
            gated = gated or "the symmetry restoration check failed"
        if gated and (tr == "success" or co == "success"):
            self.bad("later-stage", "%s, but tracing is %s and coexisting pairs are %s" % (gated, tr, co))
        if gated is None and tr != "success":
            gated = "tracing is %s" % tr
            if co == "success":
                self.bad("later-stage", "tracing is %s, but status_coex_pairs is success" % tr)
        if gated is None and co != "success":
            gated = "coexisting pairs are %s" % co
        n = self.pairs()
        filled = [i for i in range(n) if d["status_crit_%d" % i] != "nan"]
        if filled != list(range(len(filled))):
            self.bad("gap", "transitions %s are filled" % filled)
        if gated and filled:
            self.bad("later-stage", "%s, but %d transitions are reported" % (gated, len(filled)))
        if gated is None and not filled:
            self.bad("nothing-reported", "tracing and pairs succeeded, but no transition is reported")
        for i in range(n):
            if i in filled:
                self.transition(i)
            else:
                for c in d:
                    if c.endswith("_%d" % i) and d[c] != "nan":
                        self.bad("padding", "transition %d does not exist, %s holds %s" % (i, c, d[c]))
        self.history(len(filled))
        return len(filled)

    def transition(self, i):
        st = {s: self.get("status_%s_%d" % (s, i)) for s in STAGES}
        bounce = self.get("status_bounce_sol_%d" % i)
        T = {s: val(self.get("T_%s_%d" % (s, i))) for s in STAGES}
        if st["crit"] not in ("success", "true_lower", "false_lower", "failure"):
            self.bad("status", "status_crit_%d is %s" % (i, st["crit"]))
        if bounce == "success" and st["crit"] not in ("success", "true_lower"):
            self.bad("later-stage", "status_crit_%d is %s, but the bounce solution is %s" % (i, st["crit"], bounce))
        for s in STAGES[1:]:
            if bounce == "success" and st[s] not in ("success", "not_met"):
                self.bad("status", "the bounce solution %d is a success, status_%s is %s" % (i, s, st[s]))
            if bounce != "success" and st[s] == "success":
                self.bad("later-stage", "status_bounce_sol_%d is %s, but status_%s is success" % (i, bounce, s))
            if (st[s] == "success") != (T[s] is not None):
                self.bad("status-temperature", "status_%s_%d is %s, T_%s is %s" % (s, i, st[s], s, self.get("T_%s_%d" % (s, i))))
        if st["crit"] == "success" and T["crit"] is None:
            self.bad("status-temperature", "status_crit_%d is success without T_crit" % i)
        for s in STAGES:
            have = T[s] is not None and (s != "crit" or st[s] in ("success", "true_lower"))
            v = {}
            for side in ("false", "true"):
                x = [val(y) for y in self.vevs(s, side, i)]
                if any((y is not None) != have for y in x):
                    self.bad("vevs", "status_%s_%d is %s, the vevs of the %s phase are %s" % (s, i, st[s], side, x))
                v[side] = x
            if not have:
                continue
            t = T[s]
            if not -1e-9 <= t <= self.thigh + 1e-6:
                self.bad("out-of-range", "T_%s_%d = %s is outside [0, %s]" % (s, i, t, self.thigh))
            if self.toy:
                for side in ("false", "true"):
                    x = self.toy.distance_to_minimum(v[side], t)
                    if x > VMIN:
                        self.bad("not-a-minimum", "at T_%s_%d = %.10g the %s phase is reported at %s, %.3g GeV from the next minimum" % (s, i, t, side, v[side], x))
                gap = self.toy.V(v["false"], t) - self.toy.V(v["true"], t)
                h = 1e-3
                lo = self.gap_at(v, t - h)
                hi = self.gap_at(v, t + h)
                slope = abs(hi - lo) / (2 * h)
                if st["crit"] == "success":
                    if s == "crit" and abs(gap) > 5e-3 * slope + 10:
                        self.bad("not-degenerate", "at T_crit_%d = %.10g the potentials of the phases differ by %.6g, which is %.3g GeV away" % (i, t, gap, abs(gap) / max(slope, 1e-9)))
                if s != "crit" and gap < -5e-3 * slope - 10:
                    self.bad("not-deeper", "at T_%s_%d = %.10g the true phase lies %.6g above the false one" % (s, i, t, -gap))
        order = [("crit", "nucl_approx"), ("crit", "nucl"), ("crit", "perc"), ("crit", "compl")]
        if float(opt(self.sc, "perc_prbl", 0.71)) <= 0.9:  # one bubble per Hubble volume comes before a tenth of the volume
            order.append(("nucl", "perc"))
        if float(opt(self.sc, "perc_prbl", 0.71)) > float(opt(self.sc, "compl_prbl", 0.01)):
            order.append(("perc", "compl"))
        for a, b in order:
            if T[a] is not None and T[b] is not None and T[b] > T[a] * (1 + 1e-6) + 1e-6:
                self.bad("order", "T_%s_%d = %.10g is below T_%s = %.10g" % (a, i, T[a], b, T[b]))
        if opt(self.sc, "perc_prbl") and opt(self.sc, "perc_prbl") == opt(self.sc, "compl_prbl") and T["perc"] is not None:
            if T["compl"] is None or not close(T["perc"], T["compl"], 2e-4):
                self.bad("fraction", "percolation and completion are defined by the same false vacuum fraction, but T_perc_%d = %s and T_compl = %s" % (i, T["perc"], T["compl"]))
        if self.sc["tool"] == "CalcGW":
            self.waves(i, st, T, bounce)

    def gap_at(self, v, t):
        """V(false) - V(true) with both phases followed to t"""
        return self.toy.V(self.toy.descend(v["false"], t), t) - self.toy.V(self.toy.descend(v["true"], t), t)

    def waves(self, i, st, T, bounce):
        which = opt(self.sc, "trans_temp", "perc")
        g = self.get("status_gw_%d" % i)
        cols = ["trans_temp", "v_wall", "alpha_PT", "beta/H", "K_sw", "fpeak_sw", "h2OmegaPeak_sw", "SNR(LISA-3yrs)_sw", "K_turb", "fpeak_turb", "h2OmegaPeak_turb", "SNR(LISA-3yrs)_turb", "SNR(LISA-3yrs)"]
        x = {c: val(self.get("%s_%d" % (c, i))) for c in cols}
        possible = bounce == "success" and st[which] == "success" and st["perc"] == "success"
        if g not in ("success", "failure", "not_set"):
            self.bad("status", "status_gw_%d is %s" % (i, g))
        if (g == "not_set") == possible:
            self.bad("gw-status", "T_%s_%d is %s and T_perc %s, but status_gw is %s" % (which, i, st[which], st["perc"], g))
        base, spec = cols[:4], cols[4:]
        for c in cols:
            must = g == "success" or g == "failure" and c in base
            if (x[c] is not None) != must:
                self.bad("gw-columns", "status_gw_%d is %s, %s is %s" % (i, g, c, self.get("%s_%d" % (c, i))))
        if g == "not_set":
            return
        if self.vwall > 0:
            if not close(x["v_wall"], self.vwall):
                self.bad("v_wall", "wall velocity %s was asked for, v_wall_%d is %s" % (self.vwall, i, x["v_wall"]))
            if not close(x["trans_temp"], T[which], 1e-6):
                self.bad("trans_temp", "trans_temp_%d is %s, T_%s is %s" % (i, x["trans_temp"], which, T[which]))
        if g == "failure":
            if x["beta/H"] >= 1 and x["trans_temp"] > 0:
                self.bad("gw-status", "status_gw_%d is failure with beta/H = %s and trans_temp = %s" % (i, x["beta/H"], x["trans_temp"]))
            return
        if not 0 < x["trans_temp"] <= T["crit"] * (1 + 1e-6):
            self.bad("out-of-range", "trans_temp_%d is %s, T_crit %s" % (i, x["trans_temp"], T["crit"]))
        if not 0 < x["v_wall"] <= 1 or x["beta/H"] < 1 or x["alpha_PT"] <= 0:
            self.bad("gw-columns", "v_wall_%d = %s, beta/H = %s, alpha = %s" % (i, x["v_wall"], x["beta/H"], x["alpha_PT"]))
        for c in spec:
            if x[c] < 0:
                self.bad("gw-columns", "%s_%d is %s" % (c, i, x[c]))
        if self.toy and which == "perc" and self.vwall > 0 and not (opt(self.sc, "perc_prbl")):
            # strength of the transition from the potential itself
            t = T["perc"]
            v = {s: [val(y) for y in self.vevs("perc", s, i)] for s in ("false", "true")}
            h = 1e-3
            dg = (self.dV(v, t, h) - self.dV(v, t, -h)) / (2 * h)
            lead = self.toy.V(v["false"], t) - self.toy.V(v["true"], t) - t / 4 * dg
            rho = x["alpha_PT"]
            if rho <= 0 or lead <= 0 and rho > 0:
                self.bad("alpha", "alpha_PT_%d is %s, the potential gives %.4g" % (i, rho, lead))

    def dV(self, v, t, h):
        return self.toy.V(v["false"], t + h) - self.toy.V(v["true"], t + h)

    def history(self, n):
        h = self.get("transition_history")
        if not n:
            return
        toks = h.replace(">", "").split("-")
        done = [i for i in range(n) if self.get("status_compl_%d" % i) == "success"]
        try:
            phases = [int(x) for x in toks[0::2]]
            used = [int(x.strip("()")) for x in toks[1::2]]
        except ValueError:
            self.bad("history", "transition_history is %r" % h)
        if phases[0] != 0 or len(phases) != len(used) + 1 or len(set(used)) != len(used):
            self.bad("history", "transition_history is %r" % h)
        for u in used:
            if u not in done:
                self.bad("history", "transition_history %s uses transition %d, which is not completed" % (h, u))
        if n == 1 and used != done:
            self.bad("history", "transition_history is %s, completed are %s" % (h, done))
        if not self.toy:
            return
        t = {u: val(self.get("T_compl_%d" % u)) for u in done}

        def starts(a, b):
            """does completed transition b start in the phase a ends in? None: cannot be told"""
            x = self.toy.follow([val(y) for y in self.vevs("compl", "true", a)], t[a], t[b])
            if x is None:
                return None
            y = [val(y) for y in self.vevs("compl", "false", b)]
            d = max(abs(abs(p) - abs(q)) for p, q in zip(x, y))
            return True if d < 0.5 else False if d > 5 else None
        for k, a in enumerate(used):
            nxt = used[k + 1] if k + 1 < len(used) else None
            if nxt is not None and starts(a, nxt) is False:
                self.bad("history", "transition_history %s: transition %d ends in another phase than transition %d starts in" % (h, a, nxt))
            for b in done:
                if b not in used[:k + 1] and b != nxt and (nxt is None or t[b] > t[nxt] * (1 + 1e-9)) and t[b] < t[a] and starts(a, b):
                    self.bad("history", "transition_history %s: transition %d starts in the phase reached by transition %d and is completed at %s, it is not followed" % (h, b, a, t[b]))


def tc_exact(s):
    """critical temperature of the one-field structures, from the discriminant of the polynomial"""
    D, T0, A, E, L = s["D"][0], s["T0"][0], s["A"][0], s["E"][0], s["L"][0]
    # D (T^2 - T0|T0|) L = (A + E T)^2
    a, b, c = D * L - E * E, -2 * A * E, -D * L * T0 * abs(T0) - A * A
    q = b * b - 4 * a * c
    return (-b + math.sqrt(q)) / (2 * a) if q >= 0 else None


EDGE = list(range(10, 40)) + list(range(40, 56))
STEPS = list(range(80, 100))  # several transitions one after the other
ONE_FIELD = [0, 1, 4, 6, 9] + EDGE


class Temperatures(ToolProp):
    id = "C13"
    level = "exploration"
    tools = ["CalcTemps", "CalcGW"]

    def wall(self, tier):
        return 75 if tier == "quick" else 840

    rule = ("one case = one seed choosing CalcTemps or CalcGW, a table of one to three phase structures (out of 76 families shifted continuously, in a quarter of the cases in any of the six models with all fields condensing together), options, thread schedule and failing local minimisations; "
            "non-trivial if a transition with a critical temperature was judged; distinct by the hash of all results")
    assumptions = ["phase structures are those of the polynomial potential that replaces V_eff; vevs may deviate 0.1 GeV from the exact minimum, critical temperatures 5 MeV"]

    def cases(self, tier):
        return 400 if tier == "quick" else 30000

    def gen(self, rng, i, tier):
        sc = scenario(rng, tools=["CalcTemps", "CalcGW"], rows=(1, 1, 1, 2, 3), real=0.0, threads=0.15, before=0.3)
        vs = rng.choice([[0, 1, 4, 6, 9], EDGE, EDGE, ONE_FIELD, ONE_FIELD, [2, 7, 0], STEPS, STEPS, [3, 5, 8, 0, 1], list(range(56))])
        row = cxsm_row if sc["model"] == "cxsm" else sm_row
        early = rng.random() < 0.2
        if early:  # barriers that stay at zero temperature: percolation without completion
            vs = [33, 34, 36, 37, 38, 39, 51, 32, 30]
        if sc["model"] == "sm":
            vs = [v for v in vs if v not in (2, 7) and v < 56] or [0]
        n = len(sc["before"])
        sc["rows"] = [row(rng, vs, n + j, sc["indexed"]) for j in range(len(sc["rows"]))]
        if rng.random() < 0.25:  # any model, all fields condensing together
            sc["model"] = rng.choice(["cxsm", "r2hdm", "c2hdm", "n2hdm", "cpinthedark"])
            sc["before"], sc["after"], sc["shapes"] = [], [], {}
            sc["rows"] = [real_row(rng, sc["model"], j, sc["indexed"]) for j in range(len(sc["rows"]))]
            for r in sc["rows"]:
                sc["shapes"][r] = [rng.choice([60, 60, 61, 64, 65, 66, 69, 70, 78, 0, 9]), round(rng.random(), 6)]
        elif sc["model"] == "cxsm":
            sc["rows"] = [inputs.toy_cxsm(rng.choice(vs), round(rng.random(), 6), n + j, sc["indexed"]) for j in range(len(sc["rows"]))]
        o = sc["opts"]
        if rng.random() < 0.15:
            p = rng.choice(["0.5", "0.71", "0.9", "0.2", "0.05", "0.001"])
            o[:] = [x for x in o if not x.startswith(("--perc_prbl", "--compl_prbl"))] + ["--perc_prbl=" + p, "--compl_prbl=" + p]
        elif early:
            o[:] = [x for x in o if not x.startswith(("--perc_prbl", "--compl_prbl"))]
            o += ["--perc_prbl=" + rng.choice(["0.9", "0.999", "0.99999"]), "--compl_prbl=" + rng.choice(["1e-6", "1e-50", "1e-300"])]
        if rng.random() < 0.25:
            o[:] = [x for x in o if not x.startswith("--vwall")] + ["--vwall=%s" % rng.choice([0.95, 0.6, 0.3, 0.05, 0.01, 0.001, 1, -1, -2])]
        if sc["tool"] == "CalcGW" and rng.random() < 0.5:
            o[:] = [x for x in o if not x.startswith("--trans_temp")] + ["--trans_temp=%s" % rng.choice(["nucl_approx", "nucl", "perc", "compl", "compl"])]
        sched = {"mode": "seq", "races": "record"}
        if "--usemultithreading=true" in o and rng.random() < 0.7:
            sched = {"mode": "rw", "seed": rng.randrange(1 << 30), "psync": rng.choice([0.05, 0.3, 1.0]), "gap": 0, "races": "record"}
        return {"sc": sc, "sched": sched}

    def work(self, case, run):
        sc = case["sc"]
        r = self.reference(sc, run, sched=case.get("sched", {"mode": "seq", "races": "record"}))
        if r["code"] != 0:
            raise Violation("no-result", "%s gave up: %s" % (sc["tool"], died(r)), "refused:" + sc["tool"])
        p = Parsed(sc, outs(r).get(OUT, ""), sc["rows"])
        if p.err:
            raise Violation("row-malformed", "%s: %s" % (sc["tool"], p.err), "malformed:" + sc["tool"])
        shapes = r["harness"].get("shapes", [])
        for j, v in enumerate(p.rows):
            toy = Toy(shapes[j]) if j < len(shapes) else None
            t = Transitions(sc, p.names, v, toy, "row %d" % (j + 1))
            n = t.check()
            run.counts["probe.history"] += n
            run.counts["probe.transitions_%d" % n] += 1
            for s in STAGES:
                for k in range(n):
                    run.counts["probe.%s_%s" % (s, t.d["status_%s_%d" % (s, k)])] += 1
            if toy and toy.n >= 1:
                self.complete(sc, t, toy, n, j)

    def complete(self, sc, t, toy, n, j):
        """a strong transition of a one-field structure inside the range must be among those reported"""
        s = toy.s
        if s.get("M"):
            return
        if any(s["T0"][c] > 0 for c in (1, 2)[:toy.n - 1]) or any(s["A"][c] for c in (1, 2)[:toy.n - 1]):
            return
        if t.get("status_tracing") != "success" or t.get("status_coex_pairs") != "success":
            return
        tc = tc_exact(s)
        if tc is None or not 1 < tc < t.thigh - 1 or s["A"][0] < 1:
            return
        got = [val(t.get("T_crit_%d" % i)) for i in range(n) if t.get("status_crit_%d" % i) == "success"]
        if not any(x is not None and abs(x - tc) < 0.01 for x in got):
            raise Violation("transition-missing", "%s, row %d: the potential has a transition at %.8g, reported are %s" % (sc["tool"], j + 1, tc, got), "missing:" + sc["tool"])

    def shrink(self, case):
        if case.get("sched", {}).get("mode") != "seq":
            c = copy.deepcopy(case)
            c["sched"] = {"mode": "seq", "races": "record"}
            yield c
        yield from super().shrink(case)



# ------------------------------------------------------------------ tables (C16)
PINS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "pins.json")))


def sig(x, digits):
    """half a unit of the last of that many digits"""
    return 0 if x == 0 else 0.51 * 10 ** (math.floor(math.log10(abs(x))) + 1 - digits)


def magnitude(toy, p, T):
    """what the terms of the potential amount to: rounding is relative to that"""
    return abs(toy.V(p, T)) + 12 * T ** 4 + 1e4 * sum(x * x for x in p) + 1e5


class Tables(ToolProp):
    id = "C16"
    level = "exploration"
    tools = ALL
    rule = ("one case = one seed choosing program, model (all six), a table of one to six points with different outcomes, options and whether it has an index column; every column is judged by its name "
            "against the simulated potential, against CalcCT for the same rows and against the same table without index column; non-trivial if a result row was judged; distinct by the hash of all results")
    assumptions = ["column values are judged against the polynomial potential that replaces V_eff; counterterm and coupling columns of the real models against CalcCT and recorded reference points, where only exchanged columns count"]

    def cases(self, tier):
        return 500 if tier == "quick" else 40000

    def gen(self, rng, i, tier):
        tool = rng.choice(["BSMPT"] * 4 + ["CalcCT"] * 2 + ["NLOVEV"] * 3 + ["TripleHiggsNLO"] * 2 + ["CalcTemps"] * 3 + ["CalcGW"] * 3 + ["MinimaTracer"] * 4 + ["VEVEVO"] * 3 + ["PotPlotter"] * 4)
        model = rng.choice(inputs.MODELS)
        tracing = tool in ("CalcTemps", "CalcGW", "MinimaTracer")
        toy = tool not in ("CalcCT", "TripleHiggsNLO")
        n = rng.choice([1, 2, 3, 4, 5, 6]) if tool in TABLE else 1
        if tracing:
            n = min(n, rng.choice([1, 2, 3, 4]))
        indexed = rng.random() < 0.5
        nb, na = rng.choice([0, 0, 1, 3]), rng.choice([0, 1])
        lines, shapes, known = [], {}, {}
        for j in range(nb + n + na):
            r = real_row(rng, model, j, indexed) if rng.random() < 0.5 or toy else self.base(model, j, indexed)
            lines.append(r)
            if toy:
                # most rows of tracing programs have no transition, so that tables with gaps stay cheap
                v = rng.choice([3, 5, 8, 63, 65, 3, 5, 60, 4, 0, 64, 61] if tracing else [60, 61, 63, 64, 65, 66, 69, 0, 3, 5, 8])
                if model in ("sm", "cxsm") and tracing and rng.random() < 0.2:
                    v = rng.choice([2, 7, 1, 6])
                if model == "sm":
                    v %= 60
                bare = r.split("\t", 1)[1] if indexed else r
                known.setdefault(bare, [v, round(rng.random(), 2)])
                shapes[r] = known[bare]
        sc = dict(tool=tool, model=model, toy=toy, indexed=indexed, before=lines[:nb], rows=lines[nb:nb + n], after=lines[nb + n:],
                  eol=rng.random() < 0.8, opts=options(rng, tool, model, toy, 0.1), shapes=shapes)
        sc["opts"] = [o for o in sc["opts"] if o != "--usegsl=false"]  # NLopt alone stops far from the minimum
        return {"sc": sc, "twin": rng.random() < 0.3, "ct": rng.random() < 0.5}

    def base(self, model, j, indexed):
        r = inputs.base_row(model)
        if inputs.legend(model).startswith("\t"):
            r = r.split("\t", 1)[1]
        return "%d\t%s" % (j, r) if indexed else r

    def bad(self, sc, kind, text):
        raise Violation(kind, "%s, %s: %s" % (sc["tool"], sc["model"], text), kind + ":" + sc["tool"])

    def work(self, case, run):
        sc = case["sc"]
        r = self.reference(sc, run)
        if r["code"] != 0:
            run.counts["probe.reference_refused"] += 1
            return
        shapes = [Toy(x) for x in r["harness"].get("shapes", [])]
        o = outs(r)
        if sc["tool"] in SINGLE:
            t = self.plain(sc, o.get(OUT, ""))
            (self.vevevo if sc["tool"] == "VEVEVO" else self.potplotter)(sc, t, shapes[0], run)
            return
        tabs = []
        if sc["tool"] == "MinimaTracer":
            for j, row in enumerate(sc["rows"]):
                f = "%s_%d.tsv" % (OUT, j + 1)
                if f not in o:
                    self.bad(sc, "file-missing", "no file %s among %s" % (f, sorted(o)))
                lines = o[f].count("\n") - 1
                p = Parsed(sc, o[f], [row] * lines)
                if p.err:
                    self.bad(sc, "malformed", p.err)
                self.unique(sc, p)
                tabs.append(p)
                self.minima(sc, p, shapes[j], row, run)
        else:
            p = Parsed(sc, o.get(OUT, ""), sc["rows"])
            if p.err:
                self.bad(sc, "malformed", p.err)
            self.unique(sc, p)
            tabs.append(p)
            for j, v in enumerate(p.rows):
                d = dict(zip(p.names, v))
                run.counts["probe.history"] += 1
                if sc["tool"] in ("CalcTemps", "CalcGW"):
                    Transitions(sc, p.names, v, shapes[j], "row %d" % (j + 1)).check()
                elif sc["tool"] == "NLOVEV":
                    self.nlovev(sc, d, shapes[j])
                elif sc["tool"] == "BSMPT":
                    self.bsmpt(sc, d, shapes[j], run)
                if sc["rows"][j].split("\t", 1)[-1 if sc["indexed"] else 0] == self.base(sc["model"], 0, False):
                    self.pins(sc, d, run)
        if case["ct"] and sc["tool"] != "CalcCT":
            self.counterterms(sc, tabs, run)
        if case["twin"]:
            self.twin(sc, tabs, run)

    # -- structure
    def plain(self, sc, text):
        """VEVEVO and PotPlotter: a table without input columns"""
        lines = text.split("\n")
        if lines.pop() != "" or not lines:
            self.bad(sc, "malformed", "the last line is not terminated")
        names = lines[0].split("\t")
        if len(set(names)) != len(names):
            self.bad(sc, "duplicate-column", "names %s" % names)
        rows = []
        for l in lines[1:]:
            f = l.split("\t")
            if len(f) != len(names):
                self.bad(sc, "malformed", "a row has %d fields, the header %d: %r" % (len(f), len(names), l[:200]))
            v = [num(x) for x in f]
            if None in v:
                self.bad(sc, "malformed", "not a number in %r" % l[:200])
            rows.append(dict(zip(names, v)))
        return rows

    def unique(self, sc, p):
        if len(set(p.names)) != len(p.names):
            self.bad(sc, "duplicate-column", "%s" % sorted(n for n in set(p.names) if p.names.count(n) > 1)[:5])

    def col(self, sc, d, n):
        if n not in d:
            self.bad(sc, "missing-column", "no column %s" % n)
        x = val(d[n]) if isinstance(d[n], str) else d[n]
        if x is None:
            self.bad(sc, "no-value", "column %s holds %r" % (n, d[n]))
        return x

    # -- values under their names
    def nlovev(self, sc, d, toy):
        v = [self.col(sc, d, n) for n in VEVS[sc["model"]]]
        self.is_minimum(sc, toy, v, 0, "the minimum at zero temperature")
        w = self.col(sc, d, "v_NLO")
        if abs(w - self.norm(sc, v)) > 2e-3:
            self.bad(sc, "wrong-column", "v_NLO is %s above vevs of norm %.6g" % (w, self.norm(sc, v)))

    def norm(self, sc, v):
        x = ew_norm(sc, v)
        return x if x > 0.5 else 0.0

    def is_minimum(self, sc, toy, v, T, what, tol=VMIN, dT=0.0):
        x = min(toy.distance_to_minimum(v, t) for t in ((T,) if not dT else (T, T - dT, T + dT)))
        if x > tol:
            self.bad(sc, "wrong-column", "%s is reported at %s, T = %.6g, %.3g GeV from the next minimum" % (what, ["%.6g" % y for y in v], T, x))

    def bsmpt(self, sc, d, toy, run):
        names = TEMPS[sc["model"]]
        T, vc, xi = (self.col(sc, d, n) for n in names[:3])
        v = [self.col(sc, d, n) for n in names[3:]]
        if abs(vc - self.norm(sc, v)) > 2e-3 and not (vc == 0 and not any(v)):
            self.bad(sc, "wrong-column", "%s is %s above vevs of norm %.6g" % (names[1], vc, self.norm(sc, v)))
        good = xi not in (-1, -2, -3, -4, -5, 0)
        run.counts["probe.bsmpt_%s" % ("transition" if good else "status%d" % xi)] += 1
        if good:
            if not (0 < T <= 300) or abs(xi - vc / T) > 2e-5 * abs(xi) + 1e-6:
                self.bad(sc, "wrong-column", "%s is %s, %s = %s, %s = %s" % (names[2], xi, names[1], vc, names[0], T))
            self.is_minimum(sc, toy, v, T, "the broken phase", 1.0, 0.02)

    def vevevo(self, sc, rows, toy, run):
        a, s, e = (float(opt(sc, "temperature" + x)) for x in ("Start", "Step", "End"))
        want = []
        while a + len(want) * s <= e + 1e-9:
            want.append(a + len(want) * s)
        if len(rows) != len(want):
            self.bad(sc, "rows", "%d rows for %d temperatures" % (len(rows), len(want)))
        for d, t in zip(rows, want):
            run.counts["probe.history"] += 1
            T = self.col(sc, d, "T")
            if abs(T - t) > 1e-9 * (1 + t):
                self.bad(sc, "wrong-column", "T is %s, expected %s" % (T, t))
            v = [self.col(sc, d, n) for n in VEVS[sc["model"]]]
            self.is_minimum(sc, toy, v, T, "the minimum")
            w = self.col(sc, d, "v")
            if abs(w - self.norm(sc, v)) > 1e-6:
                self.bad(sc, "wrong-column", "v is %s above vevs of norm %.10g" % (w, self.norm(sc, v)))
            self.energy(sc, d, "Veff(v,T)", toy, v, T)

    def energy(self, sc, d, name, toy, v, T):
        x, y = self.col(sc, d, name), toy.V(v, T)
        if abs(x - y) > 1e-8 * magnitude(toy, v, T):
            self.bad(sc, "wrong-column", "%s is %.12g, the potential at %s and T = %s is %.12g" % (name, x, v, T, y))

    def potplotter(self, sc, rows, toy, run):
        n = NVEV[sc["model"]]
        T = float(opt(sc, "temperature"))
        names = VEVS[sc["model"]]
        if opt(sc, "slice"):
            a, b = ([float(x) for x in opt(sc, k).split(",")] for k in ("min_start", "min_end"))
            if len(rows) < 2:
                self.bad(sc, "rows", "%d rows" % len(rows))
            for k, d in enumerate(rows):
                v = [self.col(sc, d, x) for x in names]
                f = k / (len(rows) - 1.0)
                if max(abs(x - (p + f * (q - p))) for x, p, q in zip(v, a, b)) > 1e-6:
                    self.bad(sc, "wrong-column", "point %d of the slice is %s" % (k, v))
        else:
            ref = [float(x) for x in opt(sc, "point").split(",")] if opt(sc, "point") else [0.0] * n
            seen = [set() for _ in range(n)]
            for d in rows:
                v = [self.col(sc, d, x) for x in names]
                p = [self.col(sc, d, x + "_point") for x in names]
                if max(abs(x - y) for x, y in zip(p, ref)) > 1e-9:
                    self.bad(sc, "wrong-column", "the reference point is %s, asked for was %s" % (p, ref))
                self.energy(sc, d, "Veff(point,T)", toy, p, T)
                for k in range(n):
                    seen[k].add(v[k])
                    if not opt(sc, "npoints%d" % (k + 1)):
                        if abs(v[k] - ref[k]) > 1e-9:
                            self.bad(sc, "wrong-column", "%s is %s off the reference point %s" % (names[k], v[k], ref[k]))
            for k in range(n):
                if opt(sc, "npoints%d" % (k + 1)):
                    lo, hi = (float(opt(sc, "%s%d" % (x, k + 1))) for x in ("low", "high"))
                    if abs(min(seen[k]) - lo) > 1e-6 or abs(max(seen[k]) - hi) > 1e-6:
                        self.bad(sc, "wrong-column", "%s runs from %s to %s, asked for was %s to %s" % (names[k], min(seen[k]), max(seen[k]), lo, hi))
        for d in rows:
            run.counts["probe.history"] += 1
            if self.col(sc, d, "T") != T:
                self.bad(sc, "wrong-column", "T is %s instead of %s" % (d["T"], T))
            self.energy(sc, d, "Veff(v,T)", toy, [self.col(sc, d, x) for x in names], T)

    def minima(self, sc, p, toy, row, run):
        k = 0
        while "Temp_%d" % k in p.names:
            k += 1
        names = VEVS[sc["model"]]
        want = ["status_nlo_stability", "status_ewsr", "status_tracing"]
        for i in range(k):
            want += ["Temp_%d" % i] + ["%s(Temp_%d)" % (x, i) for x in names] + ["Veff(Temp_%d)" % i]
        want += ["runtime"]
        for n in want:
            if n not in p.names:
                self.bad(sc, "missing-column", "no column %s" % n)
        thigh = float(opt(sc, "thigh", 300))
        ended = set()
        last = {}
        for v in p.rows:
            run.counts["probe.history"] += 1
            d = dict(zip(p.names, v))
            if d["status_nlo_stability"] not in ("success", "no_nlo_stability", "off") or num(d["status_ewsr"]) is not None or d["status_tracing"] not in ("success", "no_coverage", "no_mins_at_boundaries", "no_glob_min_coverage", "failure"):
                self.bad(sc, "wrong-column", "statuses %s" % [d[x] for x in want[:3]])
            if num(d["runtime"]) is None or num(d["runtime"]) < 0:
                self.bad(sc, "wrong-column", "runtime is %s" % d["runtime"])
            for i in range(k):
                f = [d["Temp_%d" % i]] + [d["%s(Temp_%d)" % (x, i)] for x in names] + [d["Veff(Temp_%d)" % i]]
                if all(x == "nan" for x in f):
                    ended.add(i)
                    continue
                x = [val(y) for y in f]
                if None in x or i in ended:
                    self.bad(sc, "wrong-column", "phase %d continues with %s" % (i, f))
                T, pt, V = x[0], x[1:-1], x[-1]
                if not -1e-9 <= T <= thigh + 1e-6:
                    self.bad(sc, "wrong-column", "Temp_%d is %s" % (i, T))
                if i in last and not T > last[i]:
                    self.bad(sc, "wrong-column", "Temp_%d goes from %.12g to %.12g" % (i, last[i], T))
                last[i] = T
                self.energy(sc, d, "Veff(Temp_%d)" % i, toy, pt, T)
                if len(p.rows) < 400 or len(last) < 2:
                    g = max(abs(y) for y in toy.grad(pt, T))
                    if g > 2e3:
                        self.is_minimum(sc, toy, pt, T, "phase %d" % i, 2.0)

    # -- other programs, other runs
    def counterterms(self, sc, tabs, run):
        c = dict(sc, tool="CalcCT", toy=False, opts=[], shapes={})
        r = self.reference(c, run)
        q = Parsed(c, outs(r).get(OUT, ""), c["rows"])
        if r["code"] != 0 or q.err:
            self.bad(c, "malformed", q.err or died(r))
        rows = [(p.names, v) for p in tabs for v in (p.rows[:1] if sc["tool"] == "MinimaTracer" else p.rows)]
        for (names, v), w in zip(rows, q.rows):
            d = dict(zip(names, v))
            for n, x in zip(q.names, w):
                if n not in d:
                    self.bad(sc, "missing-column", "no column %s" % n)
                a, b = val(d[n]), val(x)
                if (a is None) != (b is None) or a is not None and abs(a - b) > sig(a, 6) + sig(b, 6) + 1e-12:
                    self.bad(sc, "wrong-column", "counterterm %s is %s, CalcCT says %s" % (n, d[n], x))
        run.counts["probe.counterterms_compared"] += 1

    def twin(self, sc, tabs, run):
        """the same table with an index column if it had none, without one if it had"""
        def other(r):
            return r.split("\t", 1)[1] if sc["indexed"] else "7\t" + r
        c = dict(sc, indexed=not sc["indexed"], before=[other(x) for x in sc["before"]], rows=[other(x) for x in sc["rows"]], after=[other(x) for x in sc["after"]],
                 shapes={other(k): v for k, v in sc["shapes"].items()})
        r = self.reference(c, run)
        o = outs(r)
        if r["code"] != 0:
            self.bad(c, "index-column", "gives up: " + died(r))
        for j, p in enumerate(tabs):
            f = "%s_%d.tsv" % (OUT, j + 1) if sc["tool"] == "MinimaTracer" else OUT
            q = Parsed(c, o.get(f, ""), [c["rows"][j]] * len(p.rows) if sc["tool"] == "MinimaTracer" else c["rows"])
            if q.err:
                self.bad(c, "malformed", q.err)
            if p.names != q.names:
                self.bad(sc, "index-column", "the columns differ with and without index column: %s against %s" % (p.names[:40], q.names[:40]))
            for a, b in zip(p.rows, q.rows):
                for n, x, y in zip(p.names, a, b):
                    if x != y and n != "runtime":
                        self.bad(sc, "index-column", "%s is %s with and %s without index column" % ((n, x, y) if sc["indexed"] else (n, y, x)))
        run.counts["probe.index_compared"] += 1

    def pins(self, sc, d, run):
        """a value that is not its column's but exactly another one's has the wrong label"""
        for part in ("CalcCT", "TripleHiggsNLO"):
            if part == "TripleHiggsNLO" and sc["tool"] != part:
                continue
            pin = PINS[sc["model"]][part]
            of = {}
            for n, x in pin.items():
                of.setdefault(x, []).append(n)
            for n, x in d.items():
                a, own = val(x), val(pin[n]) if n in pin else None
                if a is None or abs(a) < 1e-6 or own is not None and abs(a - own) <= 1e-4 * abs(own):
                    continue
                hit = [m for y, ms in of.items() for m in ms if val(y) is not None and abs(a - val(y)) <= 2 * sig(a, 6) and m != n]
                if hit and (n in pin or not n.startswith(("T_", "status"))) and len(hit) == 1:
                    self.bad(sc, "wrong-column", "column %s holds %s, which is %s of the reference point" % (n, x, hit[0]))
        run.counts["probe.reference_point"] += 1

    def shrink(self, case):
        for k in ("twin", "ct"):
            if case[k]:
                c = copy.deepcopy(case)
                c[k] = False
                yield c
        yield from super().shrink(case)


PROPS = {p.id: p for p in (Temperatures(), Tables())}
