"""Command-line programs under I/O faults, crashes, environment changes and histories (one binary per program)."""
import copy, json, math
import inputs
from dst import Violation

OUT = "/sim/out.tsv"
IN = "/sim/in.tsv"
CONF = "/sim/conf.json"
TABLE = ["BSMPT", "CalcCT", "NLOVEV", "TripleHiggsNLO", "CalcTemps", "CalcGW", "MinimaTracer"]
SINGLE = ["VEVEVO", "PotPlotter"]
ALL = TABLE + SINGLE
REWRITE = ("CalcTemps", "CalcGW")
NVEV = {"cxsm": 3, "sm": 1, "r2hdm": 4, "c2hdm": 4, "n2hdm": 5, "cpinthedark": 5}
EWDIRS = {"cxsm": [0], "sm": [0], "r2hdm": [0, 1, 2, 3]}
STUBS = ["file system, clock, random sources, memory allocation, thread scheduling (simulator)",
         "effective potential replaced by a polynomial for toy scenarios (real models in the others)"]
REAL = ["src/prog: the programs' own main functions", "the whole BSMPT library", "libstdc++ iostreams", "GSL, NLopt"]


# ------------------------------------------------------------------ scenarios
def legend_of(sc):
    leg = inputs.CXSM_LEGEND if sc["model"] == "cxsm" and sc["toy"] else inputs.legend(sc["model"])
    if leg.startswith("\t") and not sc["indexed"]:
        leg = leg[1:]
    elif sc["indexed"] and not leg.startswith("\t"):
        leg = "\t" + leg
    return leg


def cxsm_row(rng, variants, index, indexed):
    return inputs.toy_cxsm(rng.choice(variants), rng.choice([0, 0.1, 0.2, 0.35, 0.5, 0.65, 0.8, round(rng.random(), 3)]), index, indexed)


def sm_row(rng, variants, index, indexed):
    f = ["-%.3f" % (7823.7 + rng.choice(variants) / 1000.0), repr(0.12 + round(rng.random(), 3) / 10)]
    return ("%d\t" % index if indexed else "") + "    ".join(f)


def real_row(rng, model, index, indexed):
    r = inputs.vary(rng, model, 0.5) if rng.random() < 0.6 else inputs.base_row(model)
    had = inputs.legend(model).startswith("\t")
    if had and not indexed:
        r = r.split("\t", 1)[1]
    elif indexed and not had:
        r = "%d\t%s" % (index, r)
    elif had:
        r = "%d\t%s" % (index, r.split("\t", 1)[1])
    return r


QUICK_VARIANTS = [0, 0, 1, 3, 4, 5, 6, 8, 9]
FAST_VARIANTS = [3, 5, 8] * 4 + [4, 4, 0]  # tracing programs under faults: most points without a transition
ALL_VARIANTS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9]


WEIGHTED = ["BSMPT"] * 3 + ["CalcCT"] * 3 + ["NLOVEV"] * 3 + ["TripleHiggsNLO"] * 3 + ["VEVEVO"] * 3 + ["PotPlotter"] * 3 + ["CalcTemps"] * 2 + ["CalcGW"] * 2 + ["MinimaTracer"]


def scenario(rng, tools=WEIGHTED, rows=(1, 2, 2, 3), real=0.2, slow=False, before=0.4, variants=None, threads=0.3, fast=False):
    tool = rng.choice(tools)
    cheap = tool in ("CalcCT", "NLOVEV", "TripleHiggsNLO", "PotPlotter")
    tracing = tool in ("CalcTemps", "CalcGW", "MinimaTracer")
    if rng.random() < real:
        if tool in ("CalcCT", "TripleHiggsNLO", "PotPlotter"):
            model, toy = rng.choice(inputs.MODELS + ["cxsm", "sm"] * (3 if fast else 1)), False
        elif tool == "NLOVEV":
            model, toy = rng.choice(["cxsm", "sm", "sm", "cxsm", "r2hdm", "c2hdm"]), False
        elif not tracing:
            model, toy = "sm", False
        else:
            model, toy = "sm", True
    else:
        model, toy = rng.choice(["cxsm", "cxsm", "cxsm", "sm", "sm", "r2hdm" if not tracing else "sm"]), True
    vs = variants or (FAST_VARIANTS if fast and tracing else ALL_VARIANTS if (slow or not tracing) else QUICK_VARIANTS)
    indexed = rng.random() < (0.7 if model in ("cxsm", "cpinthedark") else 0.4)
    n = rng.choice(rows) if tool in TABLE else 1
    if tracing:
        n = min(n, 3)
    if not toy and fast and model != "sm":
        n = min(n, 2)

    def row(i):
        if toy and model == "cxsm":
            return cxsm_row(rng, vs, i, indexed)
        if toy and model == "sm":
            return sm_row(rng, vs, i, indexed)
        return real_row(rng, model, i, indexed)
    nb = rng.choice([1, 2, 5]) if rng.random() < before else 0
    na = rng.choice([0, 0, 1, 3])
    lines = [row(i) for i in range(nb + n + na)]
    if n > 1 and rng.random() < 0.15:  # the same point twice
        lines[nb + n - 1] = lines[nb]
    sc = dict(tool=tool, model=model, toy=toy, indexed=indexed, before=lines[:nb], rows=lines[nb:nb + n], after=lines[nb + n:],
              eol=rng.random() < 0.8, opts=options(rng, tool, model, toy, threads))
    return sc


def options(rng, tool, model, toy, threads):
    o = []
    if tool in ("CalcCT", "TripleHiggsNLO"):
        return o
    if tool == "PotPlotter":
        n = NVEV[model]
        o.append("--temperature=%s" % rng.choice([0, 50, 100, 137.5]))
        if rng.random() < 0.4:
            o += ["--slice=true", "--min_start=" + ",".join(str(rng.choice([0, 0, -20, 13.5])) for _ in range(n)),
                  "--min_end=" + ",".join(str(rng.choice([246, 100, 33.3, 0])) for _ in range(n)), "--npoints=%d" % rng.choice([2, 5, 23])]
        else:
            if rng.random() < 0.5:
                o.append("--point=" + ",".join(str(rng.choice([0, 12.5, 200])) for _ in range(n)))
            dirs = rng.sample(range(n), min(n, rng.choice([1, 1, 2])))
            for d in dirs:
                lo = rng.choice([0, -50, 10])
                o += ["--npoints%d=%d" % (d + 1, rng.choice([2, 3, 7])), "--low%d=%s" % (d + 1, lo), "--high%d=%s" % (d + 1, lo + rng.choice([5, 100, 246]))]
        return o
    k = rng.random()
    if k < 0.2:
        o.append("--usenlopt=false")
    elif k < 0.3 and toy and tool in ("BSMPT", "NLOVEV", "VEVEVO"):
        o.append("--usegsl=false")
    o.append("--usemultithreading=%s" % ("true" if rng.random() < threads else "false"))
    if tool == "VEVEVO":
        a, s = rng.choice([0, 20, 90]), rng.choice([10, 25, 60])
        o += ["--temperatureStart=%s" % a, "--temperatureStep=%s" % s, "--temperatureEnd=%s" % (a + s * rng.choice([0, 1, 3, 6]))]
    if tool in ("CalcTemps", "CalcGW", "MinimaTracer"):
        if rng.random() < 0.25:
            o.append("--thigh=%s" % rng.choice([140, 200, 250]))
        if rng.random() < 0.3:
            o.append("--multistepmode=%s" % rng.choice(["default", "0", "1", "2", "auto"]))
        if rng.random() < 0.25:
            o.append("--checkewsr=%s" % rng.choice(["on", "off", "keep_bfb", "keep_ewsr"]))
    if tool in ("CalcTemps", "CalcGW"):
        if rng.random() < 0.25:
            o.append("--vwall=%s" % rng.choice([0.95, 0.3, -1, -2]))
        if rng.random() < 0.2:
            o.append("--checknlo=off")
        if rng.random() < 0.15:
            o.append("--perc_prbl=%s" % rng.choice([0.5, 0.71, 0.9]))
        if rng.random() < 0.15:
            o.append("--compl_prbl=%s" % rng.choice([0.01, 0.1]))
    if tool == "CalcGW":
        if rng.random() < 0.3:
            o.append("--trans_temp=%s" % rng.choice(["nucl_approx", "nucl", "perc", "compl"]))
        if rng.random() < 0.2:
            o.append("--epsturb=%s" % rng.choice([0.1, 0.3]))
    return o


def table(sc, rows=None):
    lines = [legend_of(sc)] + sc["before"] + (sc["rows"] if rows is None else rows) + sc["after"]
    return "\n".join(lines) + ("\n" if sc.get("eol", True) else "")


def plan(sc, **kw):
    tool = sc["tool"]
    first = 2 + len(sc["before"])
    last = first + len(sc["rows"]) - 1
    a = [tool, "--model=" + sc["model"], "--input=" + IN, "--output=" + OUT]
    if tool in SINGLE:
        a.append("--line=%d" % first)
    else:
        if "range" in kw:
            first, last = first + kw["range"][0], first + kw["range"][1]
            del kw["range"]
        a += ["--firstline=%d" % first, "--lastline=%d" % last]
    argv, files = a + sc["opts"], {IN: table(sc)}
    if kw.get("config"):  # the same options in a configuration file
        files[CONF] = config_text(argv[1:], kw["config"])
        argv = [tool, "--json=" + CONF]
    kw.pop("config", None)
    p = dict(tool=tool, argv=argv, toy=sc["toy"], files=files, sched={"mode": "seq", "races": "record"}, io={}, cpu=40, wall=200)
    if sc.get("shapes"):
        p["shapes"] = sc["shapes"]
    p.update(kw)
    return p


def config_text(args, c):
    """the options as JSON text; c: order, comments, layout, size, and where the file ends"""
    import random
    rng = random.Random(c["seed"])
    kv = [x[2:].split("=", 1) for x in args]
    if c.get("shuffle"):
        rng.shuffle(kv)
    d = []
    for k, v in kv:
        if c.get("comments") and rng.random() < 0.5:
            d.append((k + "_comment", "anything: \"%s\"" % ("x" * rng.choice([0, 10, 3000]))))
        d.append((k, v))
    if c.get("unknown"):
        d.insert(rng.randrange(len(d) + 1), ("nosuchoption", "1"))
    body = (",\n    " if c.get("pretty") else ",").join("%s:%s%s" % (json.dumps(k), " " if c.get("pretty") else "", json.dumps(v)) for k, v in d)
    s = "{" + ("\n    " if c.get("pretty") else "") + body + ("\n" if c.get("pretty") else "") + "}"
    if "cut" in c:  # the file ends too early
        s = s[:int(c["cut"] * len(s))]
    return s + " \n" * c.get("tail", 0)


def outs(r):
    return {k: v for k, v in r["rt"]["files"].items() if k.startswith("/sim/out")}


def died(r):
    return "status=%s code=%s signal=%s %s %s" % (r.get("status"), r.get("code"), r.get("signal"), (r.get("stderr") or "")[-300:],
                                                  (r.get("detail") or "")[:300] + (r.get("harness", {}).get("log") or "")[-200:])


def first_difference(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return "%s exists only in one of the two" % k
        if a[k] != b[k]:
            x, y = a[k], b[k]
            n = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            return "%s: %d against %d bytes, first difference at byte %d: %r against %r" % (k, len(x), len(y), n, x[max(0, n - 20):n + 40], y[max(0, n - 20):n + 40])
    return "none"


# ------------------------------------------------------------------ parsed tables
class Parsed:
    """an output table: header names and, per row, the input row it stands for and (name, value) pairs"""

    def __init__(self, sc, text, rows):
        self.err = None
        lines = text.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        else:
            self.err = "the last line is not terminated"
        leg = legend_of(sc)
        self.names, self.rows = [], []
        if not lines or not lines[0].startswith(leg + "\t"):
            self.err = "the first line is not the input legend followed by the result columns: %r" % (lines[:1],)
            return
        self.names = lines[0][len(leg) + 1:].split("\t")
        body = lines[1:]
        if len(body) != len(rows):
            self.err = "%d result rows for %d requested points" % (len(body), len(rows))
            return
        for l, r in zip(body, rows):
            if not l.startswith(r + "\t"):
                self.err = "a row does not start with its input columns: %r, expected %r" % (l[:200], r[:200])
                return
            vals = l[len(r) + 1:].split("\t")
            if len(vals) != len(self.names):
                self.err = "a row has %d result fields, the header %d (row %r)" % (len(vals), len(self.names), r[:80])
                return
            self.rows.append(vals)

    def dicts(self):
        res = []
        for v in self.rows:
            d = {}
            for n, x in zip(self.names, v):
                d.setdefault(n, x)
            res.append(d)
        return res


def num(s):
    try:
        return float(s)
    except ValueError:
        return None


VOLATILE = ("runtime",)


def strip_times(sc, text):
    """an output with the measured run times blanked; also for rows that are not rectangular"""
    lines = text.split("\n")
    if not lines:
        return text
    head = lines[0].split("\t")
    cols = [len(head) - 1 - i for i, h in enumerate(reversed(head)) if h in VOLATILE]
    if not cols:
        return text
    back = sc["tool"] == "MinimaTracer"  # run time is the last column there
    out = [lines[0]]
    for l in lines[1:]:
        f = l.split("\t")
        for c in cols:
            i = c if not back else c - len(head) + len(f)
            if 0 <= i < len(f):
                f[i] = "*"
        out.append("\t".join(f))
    return "\n".join(out)


# ------------------------------------------------------------------ base class
def cpu_limited(r):
    return r["status"] == "timeout" or r["status"] == "signal" and r.get("signal") in (9, 24)


class Skip(Exception):
    """the undisturbed run takes longer than a run may: nothing to compare with"""


class ToolProp:
    real, stubs = REAL, STUBS
    level = "fault_enumeration"
    tools = ALL
    assumptions = ["the simulated file system returns what POSIX allows for regular files; reordering of writes below the page cache (power loss) is not modelled, a crash is the death of the process"]

    def binaries(self):
        return self.tools

    def wall(self, tier):
        return 60 if tier == "quick" else 840

    def affinity(self, case):
        return case["sc"]["tool"]

    def shrink_seconds(self, tier):
        return 30 if tier == "quick" else 120

    def nontrivial(self, case, run):
        return any(k.startswith("fault.") for k in run.counts) or run.counts["probe.history"] > 0

    def reference(self, sc, run, must=True, **kw):
        r = run(sc["tool"], plan(sc, **kw))
        run.counts["probe.tool_" + sc["tool"]] += 1
        if cpu_limited(r):
            raise Skip()
        if r["status"] != "exit":
            raise Violation("undisturbed-run-fails", "%s without any fault: %s" % (sc["tool"], died(r)), "undisturbed:" + sc["tool"])
        return r

    def run(self, case, run):
        try:
            self.work(case, run)
        except Skip:
            run.counts["probe.reference_too_long"] += 1

    def shrink(self, case):
        sc = case["sc"]

        def with_sc(**kw):
            c = copy.deepcopy(case)
            c["sc"].update(copy.deepcopy(kw))
            return c
        for k in ("vary", "faults", "crashes"):
            if len(case.get(k, [])) > 1:
                for x in case[k]:
                    c = copy.deepcopy(case)
                    c[k] = [copy.deepcopy(x)]
                    yield c
        if sc["after"]:
            yield with_sc(after=[])
        if sc["before"]:
            yield with_sc(before=[])
            yield with_sc(before=sc["before"][:1])
        if len(sc["rows"]) > 1:
            for i in range(len(sc["rows"])):
                yield with_sc(rows=sc["rows"][:i] + sc["rows"][i + 1:])
        for i, o in enumerate(sc["opts"]):
            if sc["tool"] == "VEVEVO" and o.startswith("--temperature") or sc["tool"] == "PotPlotter":
                continue
            yield with_sc(opts=sc["opts"][:i] + sc["opts"][i + 1:])
        if sc["toy"] and sc["model"] == "cxsm":
            plain = [inputs.toy_cxsm(0, 0.0, i, sc["indexed"]) for i in range(len(sc["rows"]))]
            for i in range(len(plain)):
                if sc["rows"][i] != plain[i]:
                    yield with_sc(rows=sc["rows"][:i] + [plain[i]] + sc["rows"][i + 1:])
        if not sc["eol"]:
            yield with_sc(eol=True)
        for k in ("faults", "crashes"):
            for j, f in enumerate(case.get(k, [])):
                if f.get("rest"):
                    c = copy.deepcopy(case)
                    c[k][j]["rest"] = False
                    yield c
                if f.get("arg"):
                    for v in (0, 1):
                        if f["arg"] > v:
                            c = copy.deepcopy(case)
                            c[k][j]["arg"] = v
                            yield c


# ------------------------------------------------------------------ faults on operations
def resolve(f, trace):
    """a fault description -> plan['io'] entries, using the operations of the undisturbed run"""
    if f["kind"] == "cap":
        total = sum(t[2] for t in trace if t[0] == "write" and t[1].startswith("/sim/out"))
        return {"cap": int(f["frac"] * total)}
    pre = CONF if f.get("file") == "conf" else IN if f["on"] in ("read", "open_r") or f.get("file") == "in" else "/sim/out"
    n = sum(1 for t in trace if t[0] == f["on"] and t[1].startswith(pre))
    if not n:
        return None
    k = (f["k"] - 1) % n + 1
    rule = {"op": f["on"], "path": pre, "kind": f["kind"], "arg": f.get("arg", 0), "from": k, "step": max(1, f.get("step", 1))}
    if not (f.get("rest") or f.get("step")):
        rule["to"] = k
    return {"rules": [rule]}


def merge_io(ios):
    io = {}
    for x in ios:
        for k, v in x.items():
            if isinstance(v, list):
                io[k] = io.get(k, []) + v
            else:
                io[k] = v
    return io


TRANSIENT = ("short", "eintr")


class Output(ToolProp):
    id = "C06"
    rule = ("one case = one seed choosing program, model, table, options and up to eight fault sequences on the output file (write errors, full device, interruptions, short writes, failing opens and closes, "
            "once or persistent); non-trivial if a fault fired; distinct by the hash of all results")

    def cases(self, tier):
        return 700 if tier == "quick" else 40000

    def gen(self, rng, i, tier):
        sc = scenario(rng, threads=0.1, real=0.15, fast=True)
        fs = []
        for _ in range(rng.choice([4, 6, 8])):
            seq = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                m = rng.random()
                k = rng.choice([1, 1, 2, 3, 0, 0, -1, rng.randrange(1, 40)])
                if m < 0.35:
                    seq.append({"on": "write", "k": k, "kind": rng.choice(["eio", "enospc"]), "rest": rng.random() < 0.3})
                elif m < 0.5:
                    seq.append({"kind": "cap", "on": "write", "frac": rng.choice([0.0, 0.999, rng.random(), rng.random()])})
                elif m < 0.65:
                    seq.append({"on": "write", "k": k, "kind": "short", "arg": rng.choice([1, 1, 7, 100, 1000]), "rest": rng.random() < 0.4})
                elif m < 0.75:
                    seq.append({"on": "write", "k": k, "kind": "eintr", "step": rng.choice([0, 2, 3])})
                elif m < 0.88:
                    seq.append({"on": "close", "k": k, "kind": rng.choice(["eio", "enospc"]), "file": "out"})
                else:
                    seq.append({"on": "open_w", "k": k, "kind": rng.choice(["eacces", "emfile", "enospc"])})
            fs.append(seq)
        return {"sc": sc, "vary": fs}

    def work(self, case, run):
        sc = case["sc"]
        ref = self.reference(sc, run, io={"trace": True})
        if ref["code"] != 0:
            run.counts["probe.reference_refused"] += 1
            return
        want = outs(ref)
        for seq in case["vary"]:
            io = [x for x in (resolve(f, ref["rt"]["trace"]) for f in seq) if x]
            r = run(sc["tool"], plan(sc, io=merge_io(io)))
            fired = r["rt"]["io"]["fired"]
            if not fired:
                run.counts["probe.fault_not_reached"] += 1
            if r["status"] == "exit" and r["code"] == 0:
                if outs(r) != want:
                    raise Violation("incomplete-output-success", "%s returned success although %s happened and the output is wrong: %s" % (sc["tool"], fired, first_difference(outs(r), want)),
                                    "incomplete:" + sc["tool"])
            elif r["status"] == "exit":
                if all(f["kind"] in TRANSIENT for f in seq) or not fired:
                    raise Violation("transient-fault-fatal", "%s failed although only %s happened: %s" % (sc["tool"], fired, died(r)), "transient:" + sc["tool"])
                run.counts["probe.failure_reported"] += 1
            else:
                raise Violation("died", "%s after %s: %s" % (sc["tool"], fired, died(r)), "died:" + sc["tool"])


class Input(ToolProp):
    id = "C07"
    rule = ("one case = one seed choosing program, model, table (most longer than one buffer), options and up to eight fault sequences on the input file (read errors, interruptions, arbitrary "
            "fragmentation, failing opens, once or persistent); non-trivial if a fault fired; distinct by the hash of all results")

    def cases(self, tier):
        return 700 if tier == "quick" else 40000

    def gen(self, rng, i, tier):
        sc = scenario(rng, fast=True, threads=0.0, real=0.2, before=0.0)
        # lines before, between and after so that several reads are needed; the reader must go through all of them
        pad = sc["rows"][0]
        room = rng.choice([0, 3000, 8000, 9000, 17000, 40000])
        sc["pad"] = room // (len(pad) + 1)
        sc["tail"] = rng.choice([0, 0, 2000, 9000]) // (len(pad) + 1)
        fs = []
        for _ in range(rng.choice([4, 6, 8])):
            seq = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                m = rng.random()
                k = rng.choice([1, 1, 2, 2, 3, 0, -1, rng.randrange(1, 9)])
                if m < 0.4:
                    seq.append({"on": "read", "k": k, "kind": "eio", "rest": rng.random() < 0.3})
                elif m < 0.75:
                    s = {"on": "read", "k": k, "kind": "short", "arg": rng.choice([1, 2, 13, 100, 1000, 5000, rng.randrange(1, 8191)])}
                    if rng.random() < 0.5:
                        s["rest"] = True
                        if s["arg"] < 13:
                            s["arg"] = rng.choice([61, 127, 300])
                    seq.append(s)
                elif m < 0.9:
                    seq.append({"on": "read", "k": k, "kind": "eintr", "step": rng.choice([0, 2, 3])})
                else:
                    seq.append({"on": "open_r", "k": 1, "kind": rng.choice(["eacces", "emfile", "eio"])})
            fs.append(seq)
        return {"sc": sc, "vary": fs}

    def work(self, case, run):
        sc = dict(case["sc"])
        sc["before"] = sc["before"] + [sc["rows"][0]] * sc["pad"]
        sc["after"] = sc["after"] + [sc["rows"][-1]] * sc["tail"]
        ref = self.reference(sc, run, io={"trace": True})
        if ref["code"] != 0:
            run.counts["probe.reference_refused"] += 1
            return
        want, rows = outs(ref), ref["harness"]["rows"]
        if rows != sc["rows"]:
            raise Violation("wrong-rows", "%s worked on %s, requested were %s" % (sc["tool"], [x[:80] for x in rows], [x[:80] for x in sc["rows"]]), "rows:" + sc["tool"])
        # bytes the reader must have seen before it can know the last requested row
        need = len(table(dict(sc, after=[], eol=True)))
        if need > len(table(sc)):
            need -= 1
        for seq in case["vary"]:
            io = [x for x in (resolve(f, ref["rt"]["trace"]) for f in seq) if x]
            r = run(sc["tool"], plan(sc, io=dict(merge_io(io), trace=True)))
            fired = r["rt"]["io"]["fired"]
            what = "%s after %s: " % (sc["tool"], fired)
            got = r.get("harness", {}).get("rows", [])
            if got != rows[:len(got)]:
                bad = next((g for g, w in zip(got, rows) if g != w), got[-1])
                raise Violation("stale-or-truncated-row", what + "treated %r as a parameter point" % bad[:200], "stale:" + sc["tool"])
            if r["status"] == "exit" and r["code"] == 0:
                if got != rows:
                    raise Violation("rows-lost-success", what + "returned success after %d of %d rows" % (len(got), len(rows)), "lost:" + sc["tool"])
                if outs(r) != want:
                    raise Violation("wrong-output-success", what + "returned success with other output: " + first_difference(outs(r), want), "output:" + sc["tool"])
            elif r["status"] == "exit":
                hard = any(k.split(":")[1] not in TRANSIENT for k in fired)
                if not hard:
                    raise Violation("transient-fault-fatal", what + died(r), "transient:" + sc["tool"])
                run.counts["probe.failure_reported"] += 1
            else:
                raise Violation("died", what + died(r), "died:" + sc["tool"])

    def shrink(self, case):
        sc = case["sc"]
        for k in ("pad", "tail"):
            for v in (0, sc[k] // 2, sc[k] - 1):
                if 0 <= v < sc[k]:
                    c = copy.deepcopy(case)
                    c["sc"][k] = v
                    yield c
        for s, seq in enumerate(case["vary"]):
            if len(seq) > 1:
                for j in range(len(seq)):
                    c = copy.deepcopy(case)
                    del c["vary"][s][j]
                    yield c
        yield from super().shrink(case)


class Config(ToolProp):
    id = "C24"
    rule = ("one case = one seed choosing program, model, table and options, the layout of the configuration file holding them (order of the keys, comments, size) and up to six disturbances of it "
            "(read errors, interruptions, fragmentation, failing opens, a file cut off at any byte, an option that does not exist); non-trivial if a fault fired or a changed file was judged; distinct by the hash of all results")

    def cases(self, tier):
        return 700 if tier == "quick" else 40000

    def gen(self, rng, i, tier):
        sc = scenario(rng, fast=True, threads=0.0, real=0.1, before=0.3, rows=(1, 1, 2))
        conf = {"seed": rng.randrange(1 << 20), "shuffle": rng.random() < 0.7, "comments": rng.random() < 0.5, "pretty": rng.random() < 0.7, "tail": rng.choice([0, 1, 3000])}
        vs = []
        for _ in range(rng.choice([3, 4, 6])):
            m, v = rng.random(), {}
            k = rng.choice([1, 1, 2, 3, rng.randrange(1, 9)])
            if m < 0.25:
                v["cut"] = rng.choice([0.0, rng.random(), rng.random(), 0.9999])
            elif m < 0.35:
                v["unknown"] = True
            elif m < 0.55:
                v["io"] = [{"on": "read", "file": "conf", "k": k, "kind": "eio", "rest": rng.random() < 0.3}]
            elif m < 0.7:
                v["io"] = [{"on": "read", "file": "conf", "k": k, "kind": "short", "arg": rng.choice([1, 2, 13, 61, 100, 1000]), "rest": rng.random() < 0.5}]
            elif m < 0.8:
                v["io"] = [{"on": "read", "file": "conf", "k": k, "kind": "eintr", "step": rng.choice([0, 2, 3])}]
            elif m < 0.9:
                v["io"] = [{"on": "open_r", "file": "conf", "k": 1, "kind": rng.choice(["eacces", "emfile", "eio"])}]
            else:  # cut into pieces, then failing
                v["io"] = [{"on": "read", "file": "conf", "k": 1, "kind": "short", "arg": rng.randrange(1, 200), "rest": False},
                           {"on": "read", "file": "conf", "k": 2, "kind": "eio", "rest": False}]
            vs.append(v)
        return {"sc": sc, "config": conf, "vary": vs, "swap": rng.random() < 0.4}

    def work(self, case, run):
        sc, conf = case["sc"], case["config"]
        ref = self.reference(sc, run)
        want, rows = outs(ref), ref["harness"]["rows"]

        def judge(r, what, hard):
            if r["status"] != "exit":
                raise Violation("died", what + died(r), "died:" + sc["tool"])
            got = r.get("harness", {}).get("rows", [])
            if got != rows[:len(got)]:
                raise Violation("other-run", what + "the program worked on %s instead of %s" % ([x[:80] for x in got], [x[:80] for x in rows]), "other:" + sc["tool"])
            if r["code"] == 0 and ref["code"] == 0:
                if outs(r) != want:
                    raise Violation("other-output", what + "success with other output: " + first_difference(outs(r), want), "other:" + sc["tool"])
                if hard == "refuse":
                    raise Violation("accepted", what + "the program ran and returned success", "accepted:" + sc["tool"])
            elif hard is False and r["code"] != ref["code"]:
                raise Violation("refused", what + died(r), "refused:" + sc["tool"])
            if r["code"] != 0:
                run.counts["probe.failure_reported"] += 1
        r = run(sc["tool"], plan(sc, config=conf, io={"trace": True}))
        judge(r, "%s with the options in a configuration file: " % sc["tool"], False)
        run.counts["probe.history"] += 1
        trace = r["rt"]["trace"]
        if case.get("swap"):  # the order of the arguments means nothing
            p = plan(sc)
            p["argv"] = p["argv"][:1] + p["argv"][:0:-1]
            judge(run(sc["tool"], p), "%s with the arguments in reverse order: " % sc["tool"], False)
        for v in case["vary"]:
            c = dict(conf, **{k: x for k, x in v.items() if k != "io"})
            hard = False
            if "cut" in v:
                t = config_text(plan(sc)["argv"][1:], c).strip()
                hard = "refuse" if not t.endswith("}") or t == "" else False
                if t.endswith("}") and t != config_text(plan(sc)["argv"][1:], dict(conf)).strip():
                    hard = None  # a brace inside a value
            if v.get("unknown"):
                hard = "refuse"
            p = plan(sc, config=c)
            if v.get("io"):
                io = [x for x in (resolve(f, trace) for f in v["io"]) if x]
                p["io"] = dict(merge_io(io), trace=True)
            r = run(sc["tool"], p)
            fired = r["rt"]["io"]["fired"]
            if any(k.split(":")[1] not in TRANSIENT for k in fired):
                hard = None
            judge(r, "%s, configuration file with %s, fired %s: " % (sc["tool"], json.dumps({k: x for k, x in v.items() if k != "io"}), fired), hard)

    def shrink(self, case):
        for k in ("shuffle", "comments", "pretty", "tail"):
            if case["config"].get(k):
                c = copy.deepcopy(case)
                c["config"][k] = 0
                yield c
        if case.get("swap"):
            yield dict(copy.deepcopy(case), swap=False)
        if case["vary"]:
            yield dict(copy.deepcopy(case), vary=[])
        yield from super().shrink(case)


class Crash(ToolProp):
    id = "C08"
    tools = TABLE + ["VEVEVO"]
    rule = ("one case = one seed choosing program, model, table, options and up to eight crash points (before, after or in the middle of an I/O operation, or at an allocation inside the computation); "
            "non-trivial if a crash happened; distinct by the hash of all results")
    SPECIAL = {0: "CalcTemps", 1: "CalcGW"}

    def cases(self, tier):
        return 700 if tier == "quick" else 40000

    def gen(self, rng, i, tier):
        if i in self.SPECIAL:  # the recorded findings: between truncating and rewriting the table
            sc = dict(tool=self.SPECIAL[i], model="cxsm", toy=True, indexed=True, before=[], after=[], eol=True, opts=["--usemultithreading=false"],
                      rows=[inputs.toy_cxsm(v, 0.0, j) for j, v in enumerate([3, 5])])
            return {"sc": sc, "crashes": [{"on": "open_w", "k": 2, "kind": "crash_after"}]}
        sc = scenario(rng, tools=[t for t in WEIGHTED if t in self.tools], threads=0.1, real=0.15, rows=(1, 2, 3, 3, 4), fast=True)
        cs = []
        for _ in range(rng.choice([4, 6, 8])):
            m = rng.random()
            k = rng.choice([1, 2, 3, 0, -1, -2, rng.randrange(1, 40)])
            if m < 0.35:
                cs.append({"at": rng.random()})
            elif m < 0.6:
                cs.append({"on": "write", "k": k, "kind": "torn", "arg": rng.choice([0, 1, 10, 60, 200, 1000])})
            else:
                cs.append({"on": rng.choice(["write", "write", "open_w", "close", "read"]), "k": k, "kind": rng.choice(["crash_before", "crash_after"])})
        return {"sc": sc, "crashes": cs}

    def key_window(self, sc, r, k):
        """did the program die between truncating the table and having rewritten the finished rows?"""
        if sc["tool"] not in REWRITE:
            return False
        t = [x for x in r["rt"]["trace"] if x[1] == OUT]
        if sum(1 for x in t if x[0] == "open_w") < 2 or not t:
            return False
        after = [x[0] for x in t]
        last_open = len(after) - 1 - after[::-1].index("open_w")
        return "close" not in after[last_open:-1] and all(x == "write" or x == "close" for x in after[last_open + 1:])

    def work(self, case, run):
        sc = case["sc"]
        tool = sc["tool"]
        ref = self.reference(sc, run, io={"trace": True, "snaps": True})
        if ref["code"] != 0:
            run.counts["probe.reference_refused"] += 1
            return
        final = outs(ref)
        snaps = ref["rt"]["snaps"] + [final]  # snaps[k]: when row k (0-based) starts
        rows = ref["harness"]["rows"]
        leg = legend_of(sc)
        # what has been finished when the next point starts must be there, whole
        for k in range(1, len(snaps)):
            if tool == "MinimaTracer":
                for j in range(k):
                    f = "%s_%d.tsv" % (OUT, j + 1)
                    if snaps[k].get(f) is None or snaps[k][f] != final.get(f) or not snaps[k][f].startswith(leg):
                        raise Violation("finished-row-not-written", "%s had not completely written %s before it began point %d" % (tool, f, k + 1), "unwritten:" + tool)
            elif tool != "VEVEVO":
                text = snaps[k].get(OUT, "")
                lines = text.split("\n")
                ok = text.endswith("\n") and len(lines) == k + 2 and lines[0].startswith(leg + "\t") and all(lines[j + 1].startswith(rows[j] + "\t") for j in range(k))
                if not ok:
                    raise Violation("finished-row-not-written", "%s: %d points were finished when point %d began, the output then was %r" % (tool, k, k + 1, text[-300:]), "unwritten:" + tool)
                if tool in REWRITE:
                    self.same_values(sc, text, final[OUT], k)
                elif not final[OUT].startswith(text):
                    raise Violation("finished-row-changed", "%s changed the result of a finished point later on" % tool, "changed:" + tool)
        window = None
        for c in case["crashes"]:
            if "at" in c:
                kw = dict(env={"crash_alloc": 1 + int(c["at"] * ref["rt"]["env"]["allocs"])}, io={"trace": True})
            else:
                x = resolve(dict(c, file="in") if c["on"] == "read" else c, ref["rt"]["trace"])
                if not x:
                    continue
                kw = dict(io=dict(x, trace=True))
            r = run(tool, plan(sc, **kw))
            if r["status"] != "crashed":
                run.counts["probe.crash_not_reached"] += 1
                continue
            started = len(r["harness"]["rows"])  # points begun
            # what the disk must hold at least and may hold at most
            lo = snaps[max(started - 1, 0)] if started else {}
            hi = snaps[started] if started < len(snaps) else final
            got = outs(r)
            if not started:
                lo, hi = {}, snaps[0]
            for f in sorted(set(got) | set(lo)):
                g, l, h = got.get(f), lo.get(f), hi.get(f)
                what = "%s, %s, %d points begun: " % (tool, r.get("why"), started)
                if g is None:
                    raise Violation("finished-rows-lost", what + "%s is gone" % f, "lost:" + tool)
                if tool in REWRITE:
                    if l is not None and g == l:
                        continue
                    if h is not None and h.startswith(g) and g.count("\n") >= 1 + (started - 1 if started else 0):
                        continue
                    if h is not None and h.startswith(g):
                        if started > 1 and self.key_window(sc, r, started):
                            window = window or Violation("finished-rows-lost", what + "the table was being rewritten and holds %d complete lines" % g.count("\n"), "rewrite-window:" + tool)
                            continue
                        if started <= 1:
                            continue
                        raise Violation("finished-rows-lost", what + "the table holds %d complete lines" % g.count("\n"), "lost:" + tool)
                    raise Violation("not-a-prefix", what + first_difference({f: g}, {f: h or ""}), "prefix:" + tool)
                if h is None or not h.startswith(g):
                    raise Violation("not-a-prefix", what + first_difference({f: g}, {f: h or ""}), "prefix:" + tool)
                if l is not None and tool != "VEVEVO" and not g.startswith(l):
                    raise Violation("finished-rows-lost", what + "%s holds %d bytes, %d were finished" % (f, len(g), len(l)), "lost:" + tool)
        if window:
            raise window

    def same_values(self, sc, early, late, k):
        a, b = Parsed(sc, early, sc["rows"][:k]), Parsed(sc, "\n".join(late.split("\n")[:k + 1]) + "\n", sc["rows"][:k])
        if a.err or b.err:
            raise Violation("finished-row-changed", "%s: %s" % (sc["tool"], a.err or b.err), "changed:" + sc["tool"])
        for x, y in zip(a.dicts(), b.dicts()):
            for n in x:
                if x[n] != y.get(n):
                    raise Violation("finished-row-changed", "%s: %s of a finished point was %s, later %s" % (sc["tool"], n, x[n], y.get(n)), "changed:" + sc["tool"])

    def shrink(self, case):
        yield from super().shrink(case)
        for j, c in enumerate(case["crashes"]):
            if "at" in c:
                for on, k, kind in (("write", 1, "crash_before"), ("open_w", 1, "crash_after"), ("write", 2, "crash_before")):
                    d = copy.deepcopy(case)
                    d["crashes"][j] = {"on": on, "k": k, "kind": kind}
                    yield d


def lift(kind):
    return kind


class History(ToolProp):
    id = "C09"
    level = "exploration"
    tools = ALL
    rule = ("one case = one seed choosing program, model, a table of points with different outcomes and up to four ways of processing it again (each point alone, another order, other points before, "
            "split into several runs, repeated); non-trivial if at least one such history was compared; distinct by the hash of all results")

    def cases(self, tier):
        return 500 if tier == "quick" else 30000

    def gen(self, rng, i, tier):
        tools = ["BSMPT"] * 3 + ["CalcCT"] * 3 + ["NLOVEV"] * 3 + ["TripleHiggsNLO"] * 3 + ["CalcTemps"] * 2 + ["CalcGW"] * 2 + ["MinimaTracer", "VEVEVO", "PotPlotter"]
        sc = scenario(rng, tools=tools, rows=(2, 3, 3, 4, 5), real=0.3, slow=rng.random() < 0.15, threads=0.2)
        n = len(sc["rows"])
        v = []
        for _ in range(rng.choice([1, 2, 3])):
            m = rng.random()
            if sc["tool"] in SINGLE:
                v.append({"do": "before", "order": [rng.randrange(1 + len(sc["before"]) + len(sc["after"])) for _ in range(rng.choice([0, 1, 3]))]})
            elif m < 0.45:
                v.append({"do": "alone", "i": rng.randrange(n)})
            elif m < 0.7:
                o = list(range(n))
                rng.shuffle(o)
                v.append({"do": "order", "order": o})
            elif m < 0.85:
                v.append({"do": "split", "at": rng.randrange(1, n) if n > 1 else 0})
            else:
                v.append({"do": "order", "order": [rng.randrange(n) for _ in range(n)]})
        return {"sc": sc, "vary": v}

    def results(self, sc, run, order, kw):
        """one run -> list of per-point results; order: indices into sc['rows']"""
        rows = [sc["rows"][i] for i in order]
        s = dict(sc, rows=rows)
        r = self.reference(s, run, **kw)
        if r["code"] != 0:
            return r, None
        rg = kw.get("range")
        if rg:
            rows = rows[rg[0]:rg[1] + 1]
        if r["harness"]["rows"] != rows:
            raise Violation("wrong-rows", "%s worked on %s, requested were %s" % (sc["tool"], [x[:60] for x in r["harness"]["rows"]], [x[:60] for x in rows]), "rows:" + sc["tool"])
        o = outs(r)
        if sc["tool"] == "MinimaTracer":
            want = {"%s_%d.tsv" % (OUT, j + 1) for j in range(len(rows))}
            if set(o) != want:
                raise Violation("row-files", "files %s, expected %s" % (sorted(o), sorted(want)), "rowfiles")
            res = []
            for j in range(len(rows)):
                t = o["%s_%d.tsv" % (OUT, j + 1)]
                leg = legend_of(sc)
                body = t.split("\n")
                if not t.endswith("\n") or not t.startswith(leg + "\t") or len(body) < 3 or any(not l.startswith(rows[j] + "\t") for l in body[1:-1]):
                    raise Violation("row-malformed", "MinimaTracer, file %d: not the input legend and columns of point %r" % (j + 1, rows[j][:80]), "malformed")
                res.append(strip_times(sc, t))
            return r, res
        p = Parsed(sc, o.get(OUT, ""), rows)
        if p.err:
            raise Violation("row-malformed", "%s: %s" % (sc["tool"], p.err), "malformed:" + sc["tool"])
        return r, p.dicts()

    def same(self, sc, a, b, how):
        if isinstance(a, str):
            if a != b:
                raise Violation("row-depends-on-history", "MinimaTracer, %s: %s" % (how, first_difference({"row": a}, {"row": b})), "history:" + sc["tool"])
            return
        for n in list(a) + [n for n in b if n not in a]:
            if n in VOLATILE:
                continue
            x, y = a.get(n, "nan"), b.get(n, "nan")
            if x != y:
                raise Violation("row-depends-on-history", "%s, %s: column %s is %s instead of %s" % (sc["tool"], how, n, y, x), "history:" + sc["tool"])

    def work(self, case, run):
        sc = case["sc"]
        n = len(sc["rows"])
        if sc["tool"] in SINGLE:
            ref = self.reference(sc, run)
            pool = sc["rows"] + sc["before"] + sc["after"]
            for v in case["vary"]:
                s = dict(sc, before=[pool[i % len(pool)] for i in v["order"]])
                r = self.reference(s, run)
                run.counts["probe.history"] += 1
                if (r["code"], outs(r)) != (ref["code"], outs(ref)):
                    raise Violation("row-depends-on-history", "%s with %d other points before: %s" % (sc["tool"], len(s["before"]), first_difference(outs(ref), outs(r))), "history:" + sc["tool"])
            return
        r, full = self.results(sc, run, range(n), {})
        if full is None:
            run.counts["probe.reference_refused"] += 1
            return
        for v in case["vary"]:
            run.counts["probe.history"] += 1
            if v["do"] == "alone":
                i = v["i"] % n
                _, got = self.results(sc, run, range(n), {"range": (i, i)})
                pairs = [(i, got and got[0])]
            elif v["do"] == "split":
                k = v["at"] % n
                pairs = []
                for a, b in ((0, k - 1), (k, n - 1)):
                    if a <= b:
                        _, got = self.results(sc, run, range(n), {"range": (a, b)})
                        pairs += [(a + j, g) for j, g in enumerate(got or [None] * (b - a + 1))]
            else:
                order = [i % n for i in v["order"]][:n] or [0]
                _, got = self.results(sc, run, order, {})
                pairs = [(i, g) for i, g in zip(order, got or [None] * len(order))]
            for i, g in pairs:
                if g is None:
                    raise Violation("run-depends-on-history", "%s succeeds for the table but fails when processed as %s" % (sc["tool"], v), "historyfail:" + sc["tool"])
                self.same(sc, full[i], g, "point %d processed as %s" % (i + 1, v))

    def shrink(self, case):
        for j, v in enumerate(case["vary"]):
            if v["do"] == "order" and len(v["order"]) > 1:
                for i in range(len(v["order"])):
                    c = copy.deepcopy(case)
                    del c["vary"][j]["order"][i]
                    yield c
        yield from super().shrink(case)


class Environment(ToolProp):
    id = "C10"
    level = "fault_enumeration"
    rule = ("one case = one seed choosing program, model, table, options and up to four environments (clock start, resolution and jumps, states of rand/srand/random_device, content of freshly allocated memory and of the unused stack); "
            "non-trivial if at least one environment was compared; distinct by the hash of all results")

    def cases(self, tier):
        return 600 if tier == "quick" else 30000

    def gen(self, rng, i, tier):
        sc = scenario(rng, real=0.4, fast=rng.random() < 0.6, slow=rng.random() < 0.1, threads=0.2)
        v = []
        for _ in range(rng.choice([1, 2, 3])):
            e = {}
            if rng.random() < 0.6:
                e["clock"] = {"start": rng.choice([0, 1, 1700000001, 4000000000, rng.randrange(1 << 33)]), "step": rng.choice([0, 1, 1000, 10 ** 9]),
                              "jumps": [[rng.randrange(1, 30), rng.choice([-10 ** 15, 10 ** 15, 3600 * 10 ** 9, -1])] for _ in range(rng.choice([0, 1, 3]))]}
            if rng.random() < 0.6:
                e["rand"] = rng.choice([{"const": 0}, {"const": 2147483647}, {"seed": rng.randrange(1 << 30)}, {"seed": rng.randrange(1 << 30)}])
            if rng.random() < 0.6:
                e["stack"] = rng.choice([0, 255, 127, 64, 1, 63, 190])
            if rng.random() < 0.6 or not e:
                e["poison"] = rng.choice([0, 255, 127, 64, 1, 63, 190])
            v.append(e)
        return {"sc": sc, "vary": v}

    def work(self, case, run):
        sc = case["sc"]
        ref = self.reference(sc, run, env={"poison": 0, "stack": 0})
        want = {k: strip_times(sc, t) for k, t in outs(ref).items()}
        for e in case["vary"]:
            r = run(sc["tool"], plan(sc, env=e))
            run.counts["probe.history"] += 1
            for k in e:
                run.counts["fault.env:" + k] += 1
            what = "%s with %s: " % (sc["tool"], e)
            if (r["status"], r.get("code")) != ("exit", ref["code"]):
                raise Violation("outcome-depends-on-environment", what + died(r), "envfail:" + sc["tool"])
            got = {k: strip_times(sc, t) for k, t in outs(r).items()}
            if got != want:
                raise Violation("result-depends-on-environment", what + first_difference(got, want), "env:" + sc["tool"])

    def shrink(self, case):
        for j, e in enumerate(case["vary"]):
            for k in e:
                if len(e) > 1:
                    c = copy.deepcopy(case)
                    del c["vary"][j][k]
                    yield c
        yield from super().shrink(case)


class Resources(ToolProp):
    id = "C15"
    rule = ("one case = one seed choosing program, model, table, options (threads on in half of them) and up to eight failures: the n-th allocation (one, three or all following) or the n-th thread creation; "
            "non-trivial if a failure fired; distinct by the hash of all results")

    def cases(self, tier):
        return 700 if tier == "quick" else 40000

    def gen(self, rng, i, tier):
        sc = scenario(rng, threads=0.5, real=0.15, fast=True)
        fs = []
        thr = "--usemultithreading=true" in sc["opts"]
        for _ in range(rng.choice([4, 6, 8])):
            if thr and rng.random() < 0.4:
                fs.append({"thread": rng.choice([1, 2, 3, 4, 5, 9, rng.randrange(1, 60)]), "len": rng.choice([1, 1, 1000000])})
            else:
                n = rng.choice([1, 1, 1, 3, 10 ** 9])
                w = rng.random()
                if w < 0.25:  # anywhere
                    f = {"at": rng.choice([rng.random(), rng.random() ** 4, 1 - rng.random() ** 4])}
                elif w < 0.6:  # any place in the program that allocates, however rarely
                    f = {"site": rng.random(), "last": rng.random() < 0.5}
                elif w < 0.8:  # just before or after something is read or written
                    f = {"io": rng.random(), "off": rng.choice([rng.randrange(-3, 4), rng.randrange(-40, 20)])}
                elif w < 0.9:  # around the beginning of a row
                    f = {"row": rng.random(), "off": rng.choice([rng.randrange(0, 8), rng.randrange(-40, 300)])}
                else:
                    f = {"end": rng.randrange(60)}
                fs.append(dict(f, len=n))
        return {"sc": sc, "faults": fs}

    @staticmethod
    def position(f, ref):
        n = max(1, ref["rt"]["env"]["allocs"])
        x = ref["rt"]
        if "site" in f and x.get("sites"):
            k = x["sites"][int(f["site"] * len(x["sites"]))][1 if f["last"] else 0]
        elif "io" in f and x.get("io_allocs"):
            k = x["io_allocs"][int(f["io"] * len(x["io_allocs"]))] + 1 + f["off"]
        elif "row" in f and x.get("marks"):
            k = x["marks"][int(f["row"] * len(x["marks"]))][2] + 1 + f["off"]
        elif "end" in f:
            k = n - f["end"]
        else:
            k = 1 + int(f.get("at", 0.5) * (n - 1))
        return min(max(k, 1), n)

    def work(self, case, run):
        sc = case["sc"]
        ref = self.reference(sc, run, env={"sites": True})
        if ref["code"] != 0:
            run.counts["probe.reference_refused"] += 1
            return
        want = outs(ref)
        for f in case["faults"]:
            for k in ("thread", "site", "io", "row", "end", "at"):
                if k in f:
                    run.counts["fault.where:" + k] += 1
            if "thread" in f:
                e = {"thread_fail": 1 + (f["thread"] - 1) % max(1, ref["rt"]["env"]["thread_creates"]), "thread_fail_len": f["len"]}
            else:
                e = {"alloc_fail": self.position(f, ref), "alloc_fail_len": f["len"]}
            r = run(sc["tool"], plan(sc, env=e))
            if r["status"] == "exit" and r["code"] == 0 and outs(r) != want:
                raise Violation("wrong-output-success", "%s with %s returned success with other output: %s" % (sc["tool"], e, first_difference(outs(r), want)),
                                ("thread:" if "thread" in f else "alloc:") + sc["tool"])
            if r["status"] == "violation" and r.get("kind") in ("deadlock", "no-termination"):
                raise Violation("no-exit", "%s with %s: %s" % (sc["tool"], e, died(r)), "hang:" + sc["tool"])


PROPS = {p.id: p for p in (Output(), Input(), Crash(), Config(), History(), Environment(), Resources())}
