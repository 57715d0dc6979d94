"""Decide one property: symbolic exploration, replay on the real code, verdict, evidence."""
import argparse, hashlib, importlib, json, multiprocessing as mp, os, queue, re, shutil, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("VERIF_REPO", "/repo")
PY = sys.executable


class Replayers:
    def __init__(self, n, cache):
        self.n, self.cache = n, cache
        self.q = queue.PriorityQueue()
        self.results = []
        self.lock = threading.Lock()
        self.seq = 0
        self.pending = 0
        self.dead = None
        self.first_ready = threading.Event()
        self.threads = [threading.Thread(target=self._serve, args=(i,), daemon=True) for i in range(n)]
        for t in self.threads:
            t.start()

    def submit(self, req, prio, cb):
        with self.lock:
            self.seq += 1
            self.pending += 1
            req = dict(req, id=self.seq)
        self.q.put((prio, self.seq, req, cb))

    def _spawn(self):
        env = dict(os.environ, NUMBA_CACHE_DIR=self.cache, NUMBA_NUM_THREADS="8", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="8")
        return subprocess.Popen([PY, os.path.join(VERIF, "symx", "replayd.py"), VERIF, ROOT], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                stderr=subprocess.DEVNULL, env=env, text=True, cwd=self.cache)

    def _serve(self, i):
        if i:
            self.first_ready.wait()
        p = self._spawn()
        line = p.stdout.readline()
        r = json.loads(line) if line else {"ready": False, "detail": "replay worker died while importing graphicle"}
        if not r.get("ready"):
            self.dead = r.get("detail")
            self.first_ready.set()
            while True:
                item = self.q.get()
                if item[2] is None:
                    return
                with self.lock:
                    self.pending -= 1
            return
        self.first_ready.set()
        while True:
            prio, seq, req, cb = self.q.get()
            if req is None:
                break
            try:
                p.stdin.write(json.dumps(req) + "\n")
                p.stdin.flush()
                line = p.stdout.readline()
                res = json.loads(line) if line else None
            except (BrokenPipeError, ValueError):
                res = None
            if res is None:
                res = {"status": "fail" if req.get("candidate") else "died", "detail": "the process running the real code died"}
                p.kill()
                p = self._spawn()
                p.stdout.readline()
            try:
                cb(req, res)
            finally:
                with self.lock:
                    self.pending -= 1
        p.stdin.close()
        p.kill()

    def close(self):
        for t in self.threads:
            self.q.put((-1, 0, None, None))


def _guard(explore, limit):
    """stop solver calls and computations that overrun the budget"""
    import signal, z3

    def alarm(*a):
        raise explore.OutOfTime()
    def lost(u):
        # raised inside a finaliser, where exceptions are dropped: raise it again
        if issubclass(u.exc_type, explore.OutOfTime):
            signal.setitimer(signal.ITIMER_REAL, 0.05)
    sys.unraisablehook = lost
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)

    def interrupt():
        time.sleep(limit)
        while True:
            z3.main_ctx().interrupt()
            time.sleep(0.5)
    threading.Thread(target=interrupt, daemon=True).start()


def _task(conn, modname, fname, params, budget, seed, gcl, np_):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        from . import explore
        mod = importlib.import_module("checks." + modname)
        _guard(explore, budget + 6)
        r = explore.explore(getattr(mod, fname), params, gcl, np_, budget, seed)
    except Exception as ex:
        r = {"error": "%s: %s" % (type(ex).__name__, ex), "tb": traceback.format_exc()[-1500:]}
    conn.send_bytes(json.dumps(r, default=str).encode())
    conn.close()
    os._exit(0)


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) check=(\S+) witness=(.*?) message=/(.*?)/ :: (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(dict(check=m.group(2), witness=m.group(3), message=m.group(4), what=m.group(5)))
    return out


def is_known(known, fn, witness, params, detail):
    for k in known:
        if k["check"] not in ("*", fn):
            continue
        if not re.search(k["message"], detail):
            continue
        try:
            if eval(k["witness"], {"w": witness, "p": params, "__builtins__": {}}):
                return k
        except Exception:
            continue
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cache = tempfile.mkdtemp(prefix="symx-")
    try:
        if a.replay:
            return do_replay(a, cache)
        return decide(a, pid, tier, seed, t0, cache)
    finally:
        shutil.rmtree(cache, ignore_errors=True)


def do_replay(a, cache):
    d = json.load(open(a.replay))
    rp = Replayers(1, cache)
    out = []
    rp.submit(d, 0, lambda q, r: out.append(r))
    while rp.pending:
        time.sleep(0.05)
        if rp.dead:
            print("graphicle does not import:", rp.dead)
            return 1
    rp.close()
    print(json.dumps(out[0]))
    return 1 if out and out[0]["status"] == "fail" else 0


def decide(a, pid, tier, seed, t0, cache):
    sys.path.insert(0, VERIF)
    rp = Replayers(3, cache)
    os.environ["NUMBA_CACHE_DIR"] = cache
    sys.dont_write_bytecode = True
    modname = pid.lower()
    violations, known_hits = [], {}
    known = load_known(pid)
    from . import core, loader, npshim
    mod = importlib.import_module("checks." + modname)
    core.set_engine(core.Engine())
    load_error = None
    try:
        gcl = loader.load(ROOT)
    except Exception as ex:
        load_error = "%s: %s" % (type(ex).__name__, ex)
        gcl = None
    tasks = mod.tasks(tier)
    if a.only:
        tasks = [t for t in tasks if re.search(a.only, t[0] + json.dumps(t[1]))]
    total = a.budget or getattr(mod, "BUDGET", {}).get(tier) or (40 if tier == "quick" else 420)
    t_end = time.time() + total
    ncpu = min(8, os.cpu_count() or 1)
    stats = {}
    agg = dict(validated=0, replayed=0, skipped=0, replay_fail=0, unconfirmed=0, died=0)
    unconf = []
    lock = threading.Lock()

    def on_replay(req, res):
        with lock:
            agg["replayed"] += 1
            st = res["status"]
            if st == "ok":
                agg["validated"] += 1
                if req.get("candidate"):
                    if not req.get("last"):
                        return
                    agg["unconfirmed"] += 1
                    if len(unconf) < 40:
                        unconf.append({"check": req["fn"], "params": req["params"], "msg": req["msg"], "witness": req["witness"]})
            elif st == "skip":
                agg["skipped"] += 1
                if req.get("candidate") and req.get("last"):
                    agg["unconfirmed"] += 1
            elif st == "fail":
                agg["replay_fail"] += 1
                k = is_known(known, req["fn"], req["witness"], req["params"], res["detail"])
                if k:
                    known_hits.setdefault(k["what"], (req, res))
                else:
                    violations.append((req, res))
            else:
                agg["died"] += 1

    def feed(t, r):
        fn, params = t
        base = {"module": modname, "fn": fn, "params": params}
        for c in r.get("candidates", []):
            poi = [0, 1]
            for p in poi:
                rp.submit(dict(base, witness=c["witness"], draws=c["draws"], candidate=True, msg=c["msg"], poison=p, last=p == poi[-1] and not c.get("race"), reverse=False), 0, on_replay)
            if c.get("race"):
                rp.submit(dict(base, witness=c["witness"], draws=c["draws"], candidate=True, msg=c["msg"], poison=0, last=True, reverse=True), 0, on_replay)
        for i, w in enumerate(r.get("witnesses", [])):
            rp.submit(dict(base, witness=w["witness"], draws=w["draws"], poison=i % 2), 1, on_replay)

    running, todo = [], list(enumerate(tasks))
    if load_error:
        todo = []
        # nothing can be executed symbolically: run every check once on the real code
        for fn, params in tasks:
            feed((fn, params), {"witnesses": [{"witness": {}, "draws": []}]})
    done = 0
    left_weight = sum(t[2] if len(t) > 2 else 1.0 for t in tasks) or 1.0
    while todo or running:
        while todo and len(running) < ncpu:
            i, t = todo.pop(0)
            w = t[2] if len(t) > 2 else 1.0
            # share the remaining time over the waves still to come
            rest = sum((x[1][2] if len(x[1]) > 2 else 1.0) for x in todo) + w
            avail = max(2.0, t_end - time.time())
            b = max(2.0, min(avail, avail * w * ncpu / rest if rest > ncpu * w else avail))
            pc, cc = mp.get_context("fork").Pipe(False)
            p = mp.get_context("fork").Process(target=_task, args=(cc, modname, t[0], t[1], b, seed + i, gcl, npshim.np_), daemon=True)
            p.start()
            cc.close()
            running.append((p, pc, i, t, time.time() + b + 25))
        nxt = []
        for p, pc, i, t, lim in running:
            r = None
            if pc.poll(0):
                try:
                    r = json.loads(pc.recv_bytes().decode())
                except EOFError:
                    r = {"error": "the exploring process died"}
            elif not p.is_alive():
                r = {"error": "the exploring process died"}
            elif time.time() > lim:
                p.kill()
                r = {"error": "out of time"}
            if r is None:
                nxt.append((p, pc, i, t, lim))
                continue
            p.join(1)
            stats[i] = r
            feed((t[0], t[1]), r)
            if a.v:
                print("  %-28s %-46s %s" % (t[0], json.dumps(t[1])[:46], brief(r)), flush=True)
        running = nxt
        if violations and os.environ.get("VERIF_FAILFAST"):
            for p, *_ in running:
                p.kill()
            running, todo = [], []
        if running:
            time.sleep(0.03)
    lim = time.time() + (60 if tier == "quick" else 200)
    while rp.pending and time.time() < lim and not rp.dead and not (violations and os.environ.get("VERIF_FAILFAST")):
        time.sleep(0.05)
    rp.close()
    code = report(a, pid, tier, seed, t0, tasks, stats, agg, unconf, violations, known_hits, known, load_error, rp, mod)
    return code


def brief(r):
    if "error" in r:
        return "ERROR " + r["error"]
    return "paths=%d ok=%d skip=%d abort=%d gap=%d checks=%d proved=%d unk=%d cand=%d left=%d q=%d %.1fs%s%s" % (
        r["paths"], r["complete"], r["skipped"], r["aborted"], r["gaps"], r["checks"], r["proved"], r["unknown"], len(r["candidates"]),
        r["left"], r["queries"], r["wall_s"], " DEGR %s" % r["degraded"] if r["degraded"] else "", " ERR %s" % r["errors"][:2] if r["errors"] else "")


def report(a, pid, tier, seed, t0, tasks, stats, agg, unconf, violations, known_hits, known, load_error, rp, mod):
    good = [r for r in stats.values() if "error" not in r]
    S = lambda k: sum(r[k] for r in good)
    notes = []
    harn = []
    for i, t in enumerate(tasks):
        r = stats.get(i, {"error": "not run"})
        d = {"check": t[0], "params": t[1]}
        if "error" in r:
            d["error"] = r["error"]
        else:
            d.update({k: r[k] for k in ("paths", "complete", "skipped", "aborted", "gaps", "checks", "proved", "unknown", "exhausted", "left", "queries", "covered")})
            d["solver_s"] = round(r["solver_s"], 2)
            d["wall_s"] = round(r["wall_s"], 2)
            d["counterexamples"] = len(r["candidates"])
            if r["degraded"]:
                d["degraded"] = r["degraded"]
            if r["errors"]:
                d["outside_model"] = r["errors"][:5]
            if r["called"]:
                d["kernels"] = r["called"]
            if not r["complete"]:
                notes.append("no complete path: %s %s" % (t[0], t[1]))
        harn.append(d)
    seen = {tuple(x) for r in good for x in r.get("lines", ())}
    if os.environ.get("VERIF_LINES"):
        with open(os.environ["VERIF_LINES"], "a") as f:
            json.dump({"check": pid, "lines": sorted(seen)}, f)
            f.write("\n")
    complete = S("complete") if good else 0
    agg_samples = [{"check": t[0], "params": t[1], "inputs": stats[i]["witnesses"][-1]["witness"]}
                   for i, t in enumerate(tasks) if stats.get(i, {}).get("witnesses")][:12]
    cov = {"states": max(1, S("paths")) if good else 0, "transitions": S("decisions") if good else 0,
           "traces_validated_against_impl": agg["validated"], "samples": agg_samples,
           "paths_complete": complete, "checks_discharged": S("proved") if good else 0, "checks_undecided": S("unknown") if good else 0,
           "queries": S("queries") if good else 0, "unknown_queries": S("unknown_queries") if good else 0,
           "solver_s": round(S("solver_s"), 2) if good else 0, "replays": agg, "counterexamples_not_reproduced": unconf,
           "all_paths_explored": bool(good) and all(r["exhausted"] for r in good) and len(good) == len(tasks),
           "harnesses": harn, "functions_encoded": sorted({f for r in good for f in r.get("functions", ())}), "scope": getattr(mod, "FUNCTIONS", ""),
           "lines_executed_symbolically": {f: sum(1 for g, _ in seen if g == f) for f in sorted({g for g, _ in seen})}, "bounds": getattr(mod, "BOUNDS", ""),
           "inconclusive": notes}
    lines = []
    code = 0
    rep = os.path.join(VERIF, "replays")
    for what, (req, res) in known_hits.items():
        lines.append("KNOWN-FINDING: property=%s %s" % (pid, what))
    for k in known:
        # the listed inputs are in the explored set: say so even when time ran out before they were met
        if k["what"] not in known_hits:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if rp.dead:
        # the package cannot be imported any more
        os.makedirs(rep, exist_ok=True)
        f = os.path.join(rep, "%s-import.json" % pid)
        json.dump({"import": rp.dead}, open(f, "w"))
        lines.append("graphicle cannot be imported: %s" % rp.dead)
        lines.append("VIOLATION property=%s replay=%s" % (pid, f))
        code = 1
    seen = set()
    shown = []
    for req, res in violations:
        key = (req["fn"], re.sub(r"[-+0-9.e]+", "#", res["detail"])[:160])
        if key in seen:
            continue
        seen.add(key)
        os.makedirs(rep, exist_ok=True)
        h = hashlib.sha1(json.dumps([req["fn"], req["params"], req["witness"]], sort_keys=True).encode()).hexdigest()[:10]
        f = os.path.join(rep, "%s-%s.json" % (pid, h))
        json.dump(dict(req, property=pid, detail=res["detail"]), open(f, "w"), indent=1)
        shown.append({"check": req["fn"], "detail": res["detail"], "witness": req["witness"], "replay": f, "by": req.get("msg", "path witness")})
        lines.append("  %s %s: %s\n    inputs %s\n    solver: %s" % (req["fn"], json.dumps(req["params"]), res["detail"], json.dumps(req["witness"]), req.get("msg", "path witness")))
        lines.append("VIOLATION property=%s replay=%s" % (pid, f))
        code = 1
        if len(shown) >= 8:
            break
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"), "coverage": cov,
          "assumptions": [x for x in [getattr(mod, "ASSUMES", "")] if x] + COMMON, "violations": len(shown), "wall_s": round(wall, 2)}
    cov["violations"] = shown
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w"), indent=1, default=str)
    print("%s %s: %d harnesses, %d paths (%d complete), %d assertions discharged, %d undecided, %d queries in %.1f s of solver, %d witnesses replayed on the real code, %d counterexamples not reproduced, %.1f s"
          % (pid, tier, len(tasks), cov["states"], complete, cov["checks_discharged"], cov["checks_undecided"], cov["queries"], cov["solver_s"], agg["replayed"], agg["unconfirmed"], wall))
    for n in notes[:6]:
        print("  inconclusive:", n)
    for u in unconf[:6] if a.v else unconf[:3]:
        print("  not reproduced on the real code: %s %s %s" % (u["check"], u["msg"], json.dumps(u["witness"]) if a.v else ""))
    for l in lines:
        print(l)
    if code == 0 and not good and agg["validated"] == 0:
        errs = [r.get("error") for r in stats.values()]
        print("nothing could be decided:", errs[:3], load_error)
        return 2
    return code


COMMON = [
    "floats are decided as real numbers with NaN and infinities as separate cases: rounding and the sign of zero lie outside the claim",
    "numpy, numba, scipy, pandas and mcpid are replaced by models of their documented behaviour; every path's witness is replayed on the real libraries",
]
