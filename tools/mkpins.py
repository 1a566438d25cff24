"""Records the reference values of the base points (run once, on a tree known to be good): tools/pins.json."""
import json, os
import build, dst, inputs
from p_tool import OUT, Parsed, outs, plan

H = os.path.dirname(os.path.abspath(__file__))
R = dst.Run(dst.Runner(build.build({"CalcCT", "TripleHiggsNLO"}, verbose=False)))
pins = {}
for m in inputs.MODELS:
    row = inputs.base_row(m)
    if inputs.legend(m).startswith("\t"):
        row = row.split("\t", 1)[1]
    pins[m] = {}
    for t in ("CalcCT", "TripleHiggsNLO"):
        sc = dict(tool=t, model=m, toy=False, indexed=False, before=[], rows=[row], after=[], eol=True, opts=[])
        p = Parsed(sc, outs(R(t, plan(sc)))[OUT], [row])
        pins[m][t] = dict(zip(p.names, p.rows[0]))
R.runner.close()
json.dump(pins, open(os.path.join(H, "pins.json"), "w"), indent=0)
