"""symbolically executes the p_* functions of one harness module with CrossHair (z3) and reports, per function,
whether its postcondition was confirmed over all paths, refuted (with the call), or left undecided"""
import importlib, json, os, re, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    mod, fn, out, limit = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])
    import z3
    stat = {"queries": 0, "time": 0.0}
    real = z3.Solver.check

    def check(self, *a):
        t = os.times()[4]
        try:
            return real(self, *a)
        finally:
            stat["queries"] += 1
            stat["time"] += os.times()[4] - t
    z3.Solver.check = check
    from crosshair.core_and_libs import analyze_function, run_checkables
    from crosshair.options import AnalysisOptionSet, AnalysisKind
    import crosshair.statespace as ss
    paths = {"n": 0}
    oinit = ss.StateSpace.__init__

    def init(self, *a, **k):
        paths["n"] += 1
        return oinit(self, *a, **k)
    ss.StateSpace.__init__ = init
    m = importlib.import_module(mod)
    t0 = time.time()
    opt = AnalysisOptionSet(analysis_kind=[AnalysisKind.PEP316], per_condition_timeout=limit, per_path_timeout=limit, report_all=True, max_uninteresting_iterations=sys.maxsize)
    msgs = run_checkables(analyze_function(getattr(m, fn), opt))
    res = {"fn": fn, "paths": paths["n"], "queries": stat["queries"], "solver_s": stat["time"], "wall_s": time.time() - t0, "states": [x.state.name for x in msgs], "messages": [x.message for x in msgs], "calls": []}
    for x in msgs:
        mm = re.search(r"when calling (%s\(.*?\))(?: \(which returns .*\))?$" % fn, x.message, re.S)
        if mm:
            res["calls"].append(mm.group(1))
    json.dump(res, open(out, "w"))


main()
