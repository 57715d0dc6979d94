"""Explore one check symbolically (in its own process)."""
import json, os, sys, time, traceback, warnings
from . import core, harness
from .core import Engine, PathAbort, Skip
from .harness import Stop


class OutOfTime(BaseException):
    """the budget is overrun in the middle of something"""


def watch(root):
    """record which functions and lines of the code under test are executed symbolically"""
    funcs, lines = set(), set()
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return funcs, lines
    tool, ev = mon.COVERAGE_ID, mon.events

    def start(code, offset):
        if code.co_filename.startswith(root):
            name = code.co_qualname
            if not name.startswith("<"):
                funcs.add("%s.%s" % (os.path.splitext(os.path.basename(code.co_filename))[0], name.replace(".<locals>", "")))
            mon.set_local_events(tool, code, ev.LINE)
        return mon.DISABLE

    def line(code, number):
        lines.add((os.path.basename(code.co_filename), number))
        return mon.DISABLE
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return funcs, lines
    mon.register_callback(tool, ev.PY_START, start)
    mon.register_callback(tool, ev.LINE, line)
    mon.set_events(tool, ev.PY_START)
    return funcs, lines


def explore(fn, params, gcl, np_, budget, seed, max_paths=100000, check_timeout=10000, max_wit=300):
    import z3
    t0 = time.time()
    eng = core.set_engine(Engine(seed=seed, timeout_ms=params.get("_timeout", 4000), deadline=t0 + budget))
    eng.check_timeout = min(check_timeout, int(budget * 500))
    eng.palette = params.get("_palette")
    res = dict(paths=0, complete=0, skipped=0, aborted=0, gaps=0, checks=0, proved=0, trivial=0, unknown=0,
               candidates=[], witnesses=[], errors=[], covered=[], degraded=[], races=0, parloops=0, decisions=0, called=[])
    covered, degr, called = set(), {}, set()
    kw = {k: v for k, v in params.items() if not k.startswith("_")}
    wit_seen = 0
    funcs, lines = watch(os.path.dirname(getattr(gcl, "__file__", None) or "/nowhere/x"))

    def loop():
        nonlocal covered, called, wit_seen
        while True:
            if time.time() - t0 > budget or res["paths"] >= max_paths:
                break
            item = eng.next_item()
            if item is None:
                break
            eng.start(item)
            res["paths"] += 1
            S = harness.Sym(eng, gcl, np_, params)
            status = "complete"
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    fn(S, **kw)
            except Stop:
                status = "failed"
            except Skip:
                status = "skipped"
            except PathAbort as ex:
                status = "aborted" if str(ex) in ("budget", "unknown") else "infeasible"
            except Exception as ex:
                eng.par = None
                tb = traceback.extract_tb(ex.__traceback__)
                where = [f for f in tb]
                txt = "%s: %s @ %s" % (type(ex).__name__, str(ex)[:200], " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(where[-6:])))
                if S.modelgap(ex):
                    status = "gap"
                    if len(res["errors"]) < 20:
                        res["errors"].append(txt)
                else:
                    status = "raised"
                    try:
                        eng.numba = 0
                        m = eng.need_model()
                        if m is not None:
                            S.fails.append({"msg": "raised " + txt, "witness": S.witness(m), "draws": S.draws(m)})
                    except PathAbort:
                        status = "infeasible"
            res["decisions"] = eng.n_decisions
            if status == "infeasible":
                continue
            try:
                if status in ("complete", "gap", "skipped") and not S.fails:
                    m = eng.need_model() if status != "skipped" else None
                    if m is not None:
                        wit_seen += 1
                        w = {"witness": S.witness(m), "draws": S.draws(m), "status": status}
                        if len(res["witnesses"]) < max_wit:
                            res["witnesses"].append(w)
                        else:
                            i = eng.rng.randrange(wit_seen)
                            if i < max_wit:
                                res["witnesses"][i] = w
            except PathAbort:
                status = "aborted"
                if eng.model is None and not eng.uncertain:
                    continue
            except z3.Z3Exception as ex:
                res["errors"].append("witness: %s" % ex)
            if eng.degraded:
                for d in eng.degraded:
                    degr[d] = degr.get(d, 0) + 1
            if getattr(eng, "races", None):
                res["races"] += len(eng.races)
                S.fails.append({"msg": "two iterations of a parallel loop touch the same element", "witness": S.witness(eng.need_model()), "draws": [], "race": True})
                eng.races = []
            res["parloops"] += getattr(eng, "par_loops", 0)
            eng.par_loops = 0
            called |= getattr(eng, "njit_called", set())
            for c in S.fails:
                if len(res["candidates"]) < 60:
                    res["candidates"].append(c)
            res["checks"] += S.n_checks
            res["proved"] += S.n_proved
            res["trivial"] += S.n_trivial
            res["unknown"] += S.n_unknown
            if status == "complete":
                res["complete"] += 1
                covered |= S.covered
            elif status == "skipped":
                res["skipped"] += 1
            elif status == "gap":
                res["gaps"] += 1
            elif status == "aborted":
                res["aborted"] += 1
    try:
        loop()
    except OutOfTime:
        res["aborted"] += 1
        eng.work.append(((), None))
    finally:
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)
    eng.finish()
    res["left"] = len(eng.work)
    res["exhausted"] = not eng.work
    res["queries"], res["solver_s"], res["unknown_queries"] = eng.n_queries, eng.solver_s, eng.n_unknown
    res["wall_s"] = time.time() - t0
    res["covered"] = sorted(covered)
    res["degraded"] = degr
    res["called"] = sorted(called)
    res["functions"], res["lines"] = sorted(funcs), sorted(lines)
    return res
