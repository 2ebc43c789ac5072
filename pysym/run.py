"""run.py check PROPERTY TIER [HARNESS] | replay FILE | native (stdin: jobs)"""
import sys, os, json, time, io, importlib, traceback, subprocess, multiprocessing, tempfile, shutil, signal
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get("VERIF_ROOT") or os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO") or "/repo"
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append(os.path.join(REPO, "Probe"))
import sym, stubs
from sym import V, Path, PathStop, Violated, Meter
stubs.install()
WORK = int(os.environ.get("VERIF_WORKERS") or 8)
meter = None


def quiet():
    """the code under test prints; nobody reads it"""
    return open(os.devnull, "w")


def load(hs):
    global meter
    if meter is None:
        meter = Meter(REPO)
    out, err = sys.stdout, sys.stderr
    sys.stdout = quiet()
    try:
        m = importlib.import_module(hs["module"])
    finally:
        sys.stdout = out
    return getattr(m, hs["func"])


def conf(hs, tier):
    c = dict(hs.get("conf", {}))
    for k, a in hs.get("q" if tier == "quick" else "t", {}).items():
        c[k] = a
    return c


def where(e):
    """the innermost function of the repository in the traceback"""
    f = None
    root = os.path.realpath(REPO) + os.sep
    for fr in traceback.extract_tb(e.__traceback__):
        if os.path.realpath(fr.filename).startswith(root):
            f = fr.name
    return f


def execute(fn, v, limit):
    meter.lines, meter.limit, meter.on = 0, limit, True
    out = sys.stdout
    sys.stdout = quiet()
    try:
        fn(v)
        return ("ok",)
    except PathStop as s:
        return ("stop", s.kind, s.why)
    except Violated as x:
        return ("violation", x.kind, x.label, x.detail)
    except RecursionError:
        return ("stop", "unsupported", "recursion")
    except Exception as e:
        w = where(e)
        if w is None:
            return ("stop", "unsupported", "harness: %s" % "".join(traceback.format_exception(e))[-700:])
        return ("violation", "exception", "%s in %s" % (type(e).__name__, w), str(e)[:200])
    finally:
        meter.on = False
        sys.stdout.close()
        sys.stdout = out


_fn = {}


def explore(job):
    """runs paths from the given prefixes for a while; returns what was found and what is left"""
    hs, tier, prefixes, limit_s, max_paths = job
    key = hs["name"]
    if key not in _fn:
        _fn[key] = load(hs)
    r = dict(paths=0, dead=0, unsup=0, unknown=0, messages={}, labels={}, assertq=0, covers={}, queries=0, sat=0, unsat=0,
             solver_s=0.0, nodes=0, lines=0, viol=[], samples=[], left=[], funcs=[])
    work = list(prefixes)
    t0 = time.time()
    n = 0
    while work and n < max_paths and time.time() - t0 < limit_s:
        pre = work.pop()
        n += 1
        p = sym.P = Path(pre)
        v = V(conf(hs, tier))
        res = execute(_fn[key], v, hs.get("lines", 20000))
        work.extend(p.alts)
        kind = res[0]
        if kind == "stop" and res[1] == "assume":
            r["dead"] += 1
        elif kind == "stop":
            r["unknown" if res[1] == "unknown" else "unsup"] += 1
            m = res[1] + ": " + res[2][-300:]
            r["messages"][m] = r["messages"].get(m, 0) + 1
        else:
            r["paths"] += 1
        try:
            if kind == "violation":
                mod = p.getmodel()
                r["viol"].append(dict(kind=res[1], label=res[2], detail=res[3],
                                      inputs={k: mod.eval(e, model_completion=True).as_long() for k, e in p.inputs.items()}))
            elif kind == "ok" and not p.inexact and (r["paths"] % 17 == 1) and len(r["samples"]) < 4:
                mod = p.getmodel()
                r["samples"].append(dict(inputs={k: mod.eval(e, model_completion=True).as_long() for k, e in p.inputs.items()},
                                         observed=[[a, sym._plain(b, mod)] for a, b in p.observed]))
        except PathStop as s:
            r["unknown"] += 1
        for k, c in p.asserts.items():
            r["labels"][k] = r["labels"].get(k, 0) + c
        if kind == "ok":
            for k in p.covers:
                r["covers"][k] = r["covers"].get(k, 0) + 1
        r["assertq"] += p.assertq
        r["queries"] += p.queries
        r["sat"] += p.sat
        r["unsat"] += p.unsat
        r["solver_s"] += p.solver_s
        r["nodes"] += p.nodes
        r["lines"] += meter.lines
        sym.P = None
    r["left"] = work
    r["funcs"] = sorted(meter.funcs)
    return r


def native_jobs():
    jobs = json.load(sys.stdin)
    res = []
    for j in jobs:
        fn = load(j["hs"])
        v = V(conf(j["hs"], j["tier"]), native=j["inputs"])
        sym.P = None
        o = execute(fn, v, j["hs"].get("lines", 20000) * 2)
        res.append(dict(outcome=list(o), observed=v.observed))
    json.dump(res, sys.stdout)


def native(hs, tier, inputs, timeout=120):
    d = tempfile.mkdtemp(prefix="verif-py-")
    try:
        jobs = [dict(hs=hs, tier=tier, inputs=i) for i in inputs]
        env = dict(os.environ, PYTHONHASHSEED="0", VERIF_ROOT=ROOT, VERIF_REPO=REPO)
        p = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), "native"], input=json.dumps(jobs), text=True,
                           capture_output=True, timeout=timeout, cwd=d, env=env)
        if p.returncode != 0:
            raise RuntimeError("native run: " + p.stderr[-500:])
        return json.loads(p.stdout)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_harness(pool, hs, tier):
    t0 = time.time()
    budget = hs.get("tbudget", 300) if tier == "thorough" else hs.get("qbudget", 45)
    tot = None
    work = [[]]
    running = []
    last = time.time()
    viol = {}
    stopped = ""
    while work or running:
        while work and len(running) < WORK:
            take = max(1, len(work) // (2 * WORK)) if len(work) > WORK else 1
            take = min(take, 50)
            running.append(pool.apply_async(explore, ((hs, tier, work[-take:], 1.5, 60 if len(work) < 4 * WORK else 400),)))
            del work[-take:]
        done = [r for r in running if r.ready()]
        if not done:
            if time.time() - last > 300:
                raise RuntimeError("no answer of the workers")
            running[0].wait(0.02)
            continue
        for d in done:
            running.remove(d)
            last = time.time()
            r = d.get()
            work.extend(r.pop("left"))
            if tot is None:
                tot = r
            else:
                for k in ("paths", "dead", "unsup", "unknown", "assertq", "queries", "sat", "unsat", "solver_s", "nodes", "lines"):
                    tot[k] += r[k]
                for k in ("messages", "labels", "covers"):
                    for a, b in r[k].items():
                        tot[k][a] = tot[k].get(a, 0) + b
                tot["samples"] += r["samples"]
                tot["funcs"] = sorted(set(tot["funcs"]) | set(r["funcs"]))
            for x in r["viol"]:
                viol.setdefault(x["kind"] + ":" + x["label"], []).append(x)
        if time.time() - t0 > budget and work:
            stopped = "time budget"
            for d in running:
                try:
                    work.extend(d.get(30)["left"])
                except Exception:
                    pass
            break
        if sum(len(x) for x in viol.values()) > 40 and time.time() - t0 > 3:
            stopped = "violations"
            break
    tot["leftover"] = len(work)
    tot["stopped"] = stopped
    tot["wall"] = time.time() - t0
    # confirm
    found, spurious = [], []
    for k, l in sorted(viol.items()):
        for x in l[:8]:
            try:
                o = native(hs, tier, [x["inputs"]])[0]["outcome"]
            except Exception as e:
                spurious.append("%s: %s" % (k, e))
                break
            if o[0] == "violation":
                found.append(dict(x, outcome=":".join(map(str, o[1:3])), hs=hs))
                break
            spurious.append("%s: native run: %s; inputs %s" % (k, " ".join(map(str, o))[:200], x["inputs"]))
    mism, okn = [], 0
    smp = tot["samples"][:12]
    if smp and not found:
        try:
            for s, o in zip(smp, native(hs, tier, [s["inputs"] for s in smp])):
                if o["outcome"][0] == "ok" and o["observed"] == s["observed"]:
                    okn += 1
                else:
                    mism.append("%s: symbolic %s, native %s %s" % (s["inputs"], s["observed"], o["outcome"], o["observed"]))
        except Exception as e:
            mism.append(str(e))
    tot.update(validated=okn, mismatch=mism, spurious=spurious)
    return tot, found


def known(prop):
    l = []
    try:
        for line in open(os.path.join(ROOT, "known_findings.txt")):
            line = line.strip()
            if line.startswith("known:"):
                head, _, text = line[6:].partition("|")
                f = dict(x.split("=", 1) for x in head.split())
                if f.get("property") == prop:
                    l.append((f.get("harness"), f.get("match"), text.strip()))
    except OSError:
        pass
    return l


def check(prop, tier, only):
    t0 = time.time()
    spec = json.load(open(os.path.join(ROOT, "harness", "spec.json")))["props"].get(prop)
    if spec is None:
        print("unknown property", prop, file=sys.stderr)
        return 2
    hs = [h for h in spec["harnesses"] if (not only or h["name"] == only) and (tier == "thorough" or not h.get("thorough_only"))]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    code = 2

    def leave(*a):
        # the workers end with this process (see follow): closing the pool in order can wait forever
        shutil.rmtree(scratch, ignore_errors=True)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)
    me = os.getpid()
    signal.signal(signal.SIGTERM, lambda *a: leave() if os.getpid() == me else os._exit(2))
    try:
        os.chdir(scratch)
        pool = multiprocessing.get_context("fork").Pool(WORK, follow)
        code = report(prop, tier, only, spec, hs, pool, t0)
    except BaseException:
        traceback.print_exc()
    finally:
        leave()


def follow():
    """a worker is ended with its parent"""
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def report(prop, tier, only, spec, hss, pool, t0):
    rows, viols, funcs, samples = [], [], set(), []
    kn = known(prop)
    hit = {}
    broken = ""
    for hs in hss:
        try:
            r, found = run_harness(pool, hs, tier)
        except Exception as e:
            broken = "%s: %s" % (hs["name"], "".join(traceback.format_exception(e))[-900:])
            continue
        funcs |= set(r["funcs"])
        exhausted = not r["leftover"] and not r["unknown"] and not r["unsup"]
        missing = [c for c in hs.get("covers", []) if c not in r["covers"]]
        rows.append(dict(harness=hs["name"], entry=hs["func"], bounds=hs.get("bounds", ""), configuration=conf(hs, tier),
                         all_paths_within_bounds=exhausted, stopped=r["stopped"], paths=r["paths"], infeasible_paths=r["dead"],
                         unsupported_paths=r["unsup"], solver_unknown=r["unknown"], messages=r["messages"],
                         assertions_reached=sum(r["labels"].values()), assertion_queries=r["assertq"], assertions=r["labels"],
                         covered=r["covers"], not_covered=missing, queries=r["queries"], sat=r["sat"], unsat=r["unsat"],
                         solver_s=round(r["solver_s"], 3), decisions=r["nodes"], lines=r["lines"],
                         unexplored_branches=r["leftover"], native_runs_agreeing=r["validated"],
                         native_runs_disagreeing=r["mismatch"], models_not_confirmed=r["spurious"], wall_s=round(r["wall"], 3)))
        for f in found:
            key = None
            for h, m, text in kn:
                if h == hs["name"] and m == (f["kind"] + ":" + f["label"]).replace(" ", "_"):
                    key = text
            if key is not None:
                hit[key] = True
            else:
                viols.append(f)
        for s in r["samples"][:2]:
            samples.append(dict(harness=hs["name"], inputs=s["inputs"], observed=s["observed"]))
        note = ""
        if r["mismatch"]:
            note += " MISMATCH " + r["mismatch"][0][:300]
        if r["spurious"]:
            note += " spurious " + r["spurious"][0][:300]
        if missing:
            note += " NOT COVERED " + ",".join(missing)
        if r["messages"]:
            note += " messages " + str(list(r["messages"].items())[:2])[:900]
        print("  %-34s %6d paths %s %6d queries %5.1fs%s" % (hs["name"], r["paths"],
              "exhausted" if exhausted else ("NON-EXHAUSTED left=%d unknown=%d unsup=%d" % (r["leftover"], r["unknown"], r["unsup"])),
              r["queries"], r["wall"], note))
    st = lambda k: sum(x[k] for x in rows)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED") or 1), level=spec.get("level", "model_checking"),
              assumptions=spec["assumptions"], violations=len(viols))
    ev["coverage"] = dict(states=st("decisions") + st("paths"), transitions=st("lines"), traces_validated_against_impl=st("native_runs_agreeing"),
        samples=samples[:8] or [dict(note="no sample")], exhaustive=all(r["all_paths_within_bounds"] for r in rows) and not broken,
        explanation="Symbolic execution of the Python code of /repo in CPython with z3-valued inputs: states are decisions and path ends, "
                    "transitions are executed source lines; every branch and assertion is decided by z3 for all values within the bounds; "
                    "sampled path models are run with plain values and must agree with the symbolic run.",
        functions_encoded=sorted(funcs), harnesses=rows, queries=st("queries"), solver_s=round(st("solver_s"), 3), outside_bounds=spec["outside"])
    if broken:
        ev["coverage"]["load_error"] = broken
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    code = 0
    for i, f in enumerate(viols):
        path = os.path.join(d, "%s-violation-%d.json" % (prop, i + 1))
        json.dump(dict(property=prop, tier=tier, py=True, harness=f["hs"], inputs=f["inputs"], kind=f["kind"], label=f["label"],
                       outcome=f["outcome"]), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("    harness %s: %s %r; native replay: %s" % (f["hs"]["name"], f["kind"], f["label"], f["outcome"]))
        if f["detail"]:
            print("    " + f["detail"][:300])
        print("    inputs: " + " ".join("%s=%s" % x for x in sorted(f["inputs"].items()))[:600])
        code = 1
    for h, m, text in kn:
        if text in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if broken and code == 0:
        print("the check could not run:", broken, file=sys.stderr)
        code = 2
    ev["wall_s"] = round(time.time() - t0, 3)
    if not only:
        json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1)
    print("%s %s: %d paths, %d queries, %.1fs solver, %.1fs wall, %d violations" % (prop, tier, st("paths"), st("queries"), st("solver_s"), time.time() - t0, len(viols)))
    return code


def replay(path):
    j = json.load(open(path))
    o = native(j["harness"], j["tier"], [j["inputs"]])[0]
    print(json.dumps(o))
    return 1 if o["outcome"][0] == "violation" else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "native":
        native_jobs()
    elif a[0] == "replay":
        sys.exit(replay(a[1]))
    else:
        sys.exit(check(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick"), a[3] if len(a) > 3 else None))
