"""Replay worker: runs a check on the real graphicle with concrete inputs (JSON lines on stdin/stdout)."""
import contextlib, importlib, json, os, signal, sys, traceback, warnings

CURRENT = None      # the check being replayed


def stand_in_minimiser():
    """scipy's minimisers, unless the check fixes the point they return; installed before graphicle is imported"""
    import numpy as np
    import scipy.optimize as spo
    real = spo.minimize

    def minimize(fun, x0, args=(), *a, **k):
        opt = getattr(CURRENT, "opt", None)
        if opt is None:
            return real(fun, x0, args, *a, **k)
        names = ("method", "jac", "hess", "hessp", "bounds")
        k = dict(dict(zip(names, a)), **k)
        args = args if isinstance(args, tuple) else (args,)
        x0 = np.asarray(x0, dtype=float)
        x = x0.copy()
        x[:len(opt["x"])] = opt["x"][:len(x)]
        r = fun(x, *args)
        jac, bounds = k.get("jac"), k.get("bounds")
        f = r[0] if jac is True else r
        g = r[1] if jac is True else jac(x, *args) if callable(jac) else None
        bounds = None if bounds is None else (list(zip(bounds.lb, bounds.ub)) if hasattr(bounds, "lb") else [tuple(b) for b in bounds])
        opt["calls"].append(dict(x0=x0, x=x, fun=f, jac=g, bounds=bounds, f=fun, args=args))
        return spo.OptimizeResult(x=x, fun=f, success=True, status=0, message="", nit=1, nfev=1, jac=g)
    spo.minimize = minimize


def stand_in_fastjet():
    """FastJet, finding the jets the check gives; its answers are awkward arrays of the layout of the real package"""
    import numpy as np
    from symx import fjmodel

    def fields(x):
        import awkward as ak
        x = x if isinstance(x, ak.Array) else ak.Array(x)
        return {n: x[n].to_list() for n in x.fields}

    def records(rows):
        import awkward as ak
        cols = np.array(rows, dtype=float).reshape(-1, 4).T
        return ak.Array(ak.contents.RecordArray([ak.contents.NumpyArray(np.ascontiguousarray(c)) for c in cols], fjmodel.NAMES, parameters={"__record__": "Momentum4D"}))

    def lists(rows):
        import awkward as ak
        off = np.cumsum([0] + [len(r) for r in rows])
        return ak.Array(ak.contents.ListOffsetArray(ak.index.Index64(off), ak.contents.NumpyArray(np.array([x for r in rows for x in r], dtype=np.int32))))

    def missing(n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise NotImplementedError("fastjet." + n)
    sys.modules["fastjet"] = fjmodel.make(lambda: getattr(CURRENT, "jets", None), fields, records, lists, missing)


def stand_in_tabulate():
    """records the tables it is given, if the check asks for it"""
    import tabulate
    from symx import fjmodel
    real = tabulate.tabulate

    def tab(*a, **k):
        t = getattr(CURRENT, "tabulated", None)
        return real(*a, **k) if t is None else fjmodel.record_table(t, *a, **k)
    tabulate.tabulate = tab


def parallel_kernels(gcl):
    mods = [m for n, m in list(sys.modules.items()) if n.split(".")[0] == gcl.__name__ and m is not None]
    for m in mods:
        for n, v in list(vars(m).items()):
            if hasattr(v, "py_func") and getattr(v, "targetoptions", {}).get("parallel"):
                yield m, n, v


class Accesses:
    """elements touched by the iterations of parallel loops (of the kernels' Python source)"""
    def __init__(self):
        self.loop, self.it, self.seen, self.keep = 0, None, {}, []

    def touch(self, a, mode, key=()):
        """the elements of an array, or those a subscript selects"""
        import numpy as np
        if self.it is None or a.size == 0:
            return
        self.keep.append(a)
        at = np.full(a.shape, a.__array_interface__["data"][0])
        for axis, st in enumerate(a.strides):
            at += np.arange(a.shape[axis]).reshape([-1 if x == axis else 1 for x in range(a.ndim)]) * st
        for x in np.ravel(at[key]):
            d = self.seen.setdefault((self.loop, int(x)), {})
            d[self.it] = max(d.get(self.it, "r"), mode)

    def conflicts(self):
        return sum(len(d) > 1 and "w" in d.values() for d in self.seen.values())


@contextlib.contextmanager
def schedule(gcl, order, log=False):
    """every parallel loop run from the Python source of its kernel, in the order of these ranks"""
    import numba, numpy as np
    from symx.shims import reorder
    acc = Accesses()
    undo = []
    outer = numba.prange

    def pr(*a):
        acc.loop += 1
        old = acc.it
        for i in reorder(list(range(*a)), order):
            acc.it = i
            yield i
        acc.it = old

    class Logged(np.ndarray):
        def __getitem__(self, k):
            v = np.ndarray.__getitem__(self, k)
            if isinstance(v, np.ndarray) and v.base is not None and np.shares_memory(v, self):
                return v
            acc.touch(np.asarray(self), "r", k)
            return v

        def __setitem__(self, k, v):
            acc.touch(np.asarray(self), "w", k)
            np.ndarray.__setitem__(self, k, v)

        def __array_ufunc__(self, uf, method, *ins, out=(), **k):
            for a in ins:
                if isinstance(a, Logged):
                    acc.touch(np.asarray(a), "r")
            for a in out or ():
                if isinstance(a, Logged):
                    acc.touch(np.asarray(a), "w")
            un = lambda a: np.asarray(a) if isinstance(a, Logged) else a
            if out:
                k["out"] = tuple(map(un, out))
            r = getattr(uf, method)(*map(un, ins), **k)
            return out[0] if out else r

    def kernel(f):
        def run(*a):
            olds = np.empty, np.zeros, np.ones
            def wrap(g):
                return lambda *x, **k: g(*x, **k).view(Logged)
            np.empty, np.zeros, np.ones = map(wrap, olds)
            try:
                r = f(*[x.view(Logged) if type(x) is np.ndarray and x.dtype.names is None else x for x in a])
            finally:
                np.empty, np.zeros, np.ones = olds
            un = lambda x: np.asarray(x) if isinstance(x, Logged) else x
            return tuple(map(un, r)) if isinstance(r, tuple) else un(r)
        return run
    for m, n, v in list(parallel_kernels(gcl)):
        g = v.py_func.__globals__
        for q, w in list(g.items()):
            if w is outer:
                g[q] = pr
                undo.append(lambda g=g, q=q: g.__setitem__(q, outer))
        setattr(m, n, kernel(v.py_func) if log else v.py_func)
        undo.append(lambda m=m, n=n, v=v: setattr(m, n, v))
    numba.prange = pr
    try:
        yield acc
    finally:
        numba.prange = outer
        for u in reversed(undo):
            u()


def load_real(root):
    sys.path.insert(0, root)
    import numpy as np
    stand_in_minimiser()
    stand_in_fastjet()
    stand_in_tabulate()
    import graphicle
    assert os.path.realpath(graphicle.__file__).startswith(os.path.realpath(root) + os.sep), graphicle.__file__
    return graphicle, np


class Draws:
    """default_rng stand-in fed with the numbers of the symbolic run; the same seed gives the same numbers"""
    def __init__(self, S, np, seed=None):
        self.S, self.np, self.n = S, np, 0
        S.draw_seeds.append(seed)
        self.stream = S.seed_streams.setdefault(int(seed), {}) if isinstance(seed, (int, np.integer)) else None

    def _one(self, kind, default, lo, hi):
        k = (self.n, kind)
        self.n += 1
        if self.stream is not None and k in self.stream:
            return self.stream[k]
        v = self.S.draw_stream.pop(0) if self.S.draw_stream else default
        if kind != "integers":
            v = min(max(float(v), min(lo, hi)), max(lo, hi))
        self.S.draw_log.append((kind, v, lo, hi))
        if self.stream is not None:
            self.stream[k] = v
        return v

    def random(self, size=None, dtype=None, out=None):
        np = self.np
        if size is None:
            return self._one("random", 0.3, 0.0, 1.0)
        out = np.empty(tuple(np.atleast_1d(size)))
        for n, i in enumerate(np.ndindex(*out.shape)):
            out[i] = self._one("random", (0.3 + 0.07 * n) % 1, 0.0, 1.0)
        return out

    def uniform(self, low=0.0, high=1.0, size=None):
        np = self.np
        lo, hi = np.asarray(low, dtype=float), np.asarray(high, dtype=float)
        b = np.broadcast(lo, hi)
        if size is None and b.shape:
            size = b.shape
        shp = () if size is None else tuple(np.atleast_1d(size))
        lo, hi = np.broadcast_to(lo, shp), np.broadcast_to(hi, shp)
        out = np.empty(shp)
        for n, i in enumerate(np.ndindex(*shp)):
            out[i] = self._one("uniform", lo[i] + (0.4 + 0.05 * n) % 1 * (hi[i] - lo[i]), float(lo[i]), float(hi[i]))
        return float(out[()]) if size is None else out

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        np = self.np
        lo, hi = (low, high) if high is not None else (0, low)
        if size is None:
            return int(self._one("integers", lo, lo, hi))
        out = np.empty(tuple(np.atleast_1d(size)), dtype=dtype or np.int64)
        for i in np.ndindex(*out.shape):
            out[i] = int(self._one("integers", lo, lo, hi))
        return out


class Timeout(Exception):
    pass


def alarm(*a):
    raise Timeout("replay took too long")


def run_one(gcl, np, req, mods):
    from symx import harness
    mod = mods.get(req["module"])
    if mod is None:
        mod = mods[req["module"]] = importlib.import_module("checks." + req["module"])
    fn = getattr(mod, req["fn"])
    S = harness.Real(gcl, dict(req["witness"]), req.get("draws"), req["params"])
    kw = {k: v for k, v in req["params"].items() if not k.startswith("_")}
    real_rng, real_empty, real_like = np.random.default_rng, np.empty, np.empty_like
    poison = req.get("poison", 0)

    def fill(a):
        k = a.dtype.kind
        if k == "b":
            a[...] = bool(poison == 0)
        elif k in "iu":
            a[...] = 77 if poison == 0 else 3
        elif k in "fc":
            a[...] = 1e3 if poison == 0 else float("nan")
        elif a.dtype.names:
            for n in a.dtype.names:
                fill(a[n])
        return a

    def empty(*a, **k):
        return fill(real_empty(*a, **k))

    def empty_like(*a, **k):
        return fill(real_like(*a, **k))
    S.real_rng = real_rng
    if not req["params"].get("_realrng"):
        np.random.default_rng = lambda seed=None: Draws(S, np, seed)
    np.empty, np.empty_like = empty, empty_like
    undo = []
    import numba
    sched = contextlib.ExitStack()
    if req.get("reverse"):
        # another schedule of every parallel loop, over the Python source of the kernels
        sched.enter_context(schedule(gcl, list(range(64))[::-1]))
    global CURRENT
    CURRENT = S
    status, detail = "ok", ""
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(req.get("limit", 30)))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                fn(S, **kw)
            except harness.Stop:
                status, detail = "fail", S.fails[-1]
            except harness.Skip:
                status = "skip"
    except Timeout as ex:
        status, detail = "timeout", str(ex)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        status = "fail"
        detail = "raised %s: %s @ %s" % (type(ex).__name__, str(ex)[:300], " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-6:])))
    finally:
        signal.alarm(0)
        np.random.default_rng, np.empty, np.empty_like = real_rng, real_empty, real_like
        try:
            numba.set_num_threads(numba.config.NUMBA_NUM_THREADS)
        except Exception:
            pass
        sched.close()
        CURRENT = None
    return {"status": status, "detail": detail, "checks": S.n_checks, "covered": sorted(S.covered)}


def main():
    verif, root = sys.argv[1], sys.argv[2]
    sys.path.insert(0, verif)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    try:
        gcl, np = load_real(root)
    except Exception as ex:
        out.write(json.dumps({"ready": False, "detail": "%s: %s" % (type(ex).__name__, ex)}) + "\n")
        out.flush()
        return
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    mods = {}
    for line in sys.stdin:
        req = json.loads(line)
        try:
            r = run_one(gcl, np, req, mods)
        except Exception as ex:
            r = {"status": "error", "detail": "%s: %s" % (type(ex).__name__, ex)}
        r["id"] = req["id"]
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
