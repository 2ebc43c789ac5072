# Checks per property (run tools/gen.py to regenerate harness/spec.json and MANIFEST.json).
SIM = "SmartCache/sim"

def H(name, pkg, files, func, conf, quick=None, thorough=None, qb=20, tb=150, covers=(), bounds="", **kw):
    d = dict(name=name, dir=kw.pop("dir", SIM), pkg=pkg, files=files, func=func, conf=conf, quick=quick or {},
             thorough=thorough or {}, qbudget=qb, tbudget=tb, covers=list(covers), bounds=bounds)
    d.update(kw)
    return d

TECH = ("symbolic execution of the Go SSA of /repo with path conditions and assertions decided by z3; "
        "counterexamples replayed natively through a test overlay")
NOTE = "Exhaustive within the stated bounds (all values of the symbolic inputs, all paths); nothing is claimed beyond them."

CHECKS, NA = {}, {}

def C(id, harnesses, outside, assumptions=(), note=NOTE, technique=TECH, level="model_checking", cmd=None):
    CHECKS[id] = dict(harnesses=harnesses, outside=outside, assumptions=list(assumptions), note=note,
                      technique=technique, level=level, cmd=cmd or ("bash tools/check.sh %s %%s" % id))

QC = ["insert", "update", "remove", "remove worst", "remove two"]
QF = ["queue_h.go"]

def queue(kind, nm, ops, worst):
    out = []
    for i, (keys, q, t) in enumerate(ops):
        out.append(H("%s-ops-%s-%d" % (nm, "any" if keys == 0 else "rank%d" % keys, i), "cache/queue", QF, "vhQueueOps", dict(kind=kind, keys=keys),
            dict(start=q[0], ops=q[1]), dict(start=t[0], ops=t[1]), qb=20, tb=300, covers=QC,
            bounds="%s queue holding `start` files with arbitrary distinct 51-bit names, then `ops` arbitrary operations (insert new or re-insert, update with an arbitrary new key, remove one or two, remove the k worst), all listings checked after every operation; keys=0: arbitrary keys, otherwise keys 1..`keys`" % nm))
    q, t = worst
    out.append(H("%s-worst" % nm, "cache/queue", QF, "vhQueueWorst", dict(kind=kind, keys=0),
        dict(start=q[0], ops=q[1]), dict(start=t[0], ops=t[1]), qb=15, tb=150, covers=["proper prefix"],
        bounds="listing of the worst files up to an arbitrary amount after `start` insertions of arbitrary sizes and `ops` arbitrary operations"))
    return out

QOUT = "longer operation histories, more files, NaN or infinite keys, keys beyond the stated ranges"
FL = [(0, (2, 3), (3, 3)), (1, (3, 3), (4, 4)), (2, (4, 2), (4, 3)), (2, (3, 3), (3, 4))]
C("C04", queue(0, "lru", [(0, (4, 4), (4, 5)), (0, (6, 3), (6, 4))], ((3, 1), (4, 2))), QOUT)
C("C05", queue(1, "lfu", FL, ((2, 1), (3, 2))), QOUT)
FS = [(0, (2, 2), (3, 3)), (1, (3, 3), (4, 4)), (2, (4, 2), (4, 3))]
C("C06", queue(2, "big", FS, ((2, 1), (3, 1))) + queue(3, "small", FS, ((2, 1), (3, 1))) +
         queue(4, "weight", FL, ((2, 1), (3, 1))), QOUT)


CF = ["cache_h.go"]
POL = dict(lru=0, lfu=1, big=2, small=3, random=4, random_lru=5, weight=6, infinite=7, dataset=8)

def cache(prop, pol, menu, q, t, tag="", qb=20, tb=150, covers=("hit",), bounds="", **conf):
    cf = dict(policy=POL[pol], prop=prop, sizebits=20, max=0, watermarks=0, redirect=0, menu=menu, read=0)
    cf.update(conf)
    rnd = pol in ("random", "random_lru")
    return H("%s%s" % (pol, tag), "cache", CF, "vhCacheRun", cf, dict(files=q[0], ops=q[1]), dict(files=t[0], ops=t[1]), qb=qb, tb=tb,
        covers=list(covers), bounds=bounds or "any history of `ops` operations (requests of up to `files` files, plus the operations of menu) on a %s cache" % pol, rand=rnd, maporder=pol in ("infinite", "random"))


COUT = ("longer histories, more files, sizes that change while a file is resident, sizes that are not whole megabytes or exceed 2^20 (2^9 with percentages), "
        "a capacity that is not a whole number of megabytes, file names outside 51 bits")
EV = ("hit", "eviction")
ALL = ["lru", "lfu", "big", "small", "weight", "random", "random_lru", "dataset", "infinite"]
UNB = ("hit",)
FREE, PCT, CST, CFI, CNT = 1, 2, 4, 8, 16

def qt(pol):
    return dict(lru=((3, 5), (4, 6)), lfu=((3, 5), (4, 6)), big=((3, 5), (4, 6)), small=((3, 5), (4, 6)), weight=((3, 4), (3, 6)), random=((3, 4), (3, 5)),
                random_lru=((3, 4), (4, 5)), dataset=((2, 4), (3, 5)), infinite=((3, 5), (4, 6)))[pol]

def family(prop, pols, menu, pct=(), wm=(), rd=(), cut=0, covers=EV):
    hs = []
    for pol in pols:
        q, t = qt(pol)
        q = (q[0], q[1] - cut)
        hs.append(cache(prop, pol, menu, q, t, covers=UNB if pol == "infinite" else covers))
    for pol in pct:
        hs.append(cache(prop, pol, PCT, (3, 4), (4, 5), tag="-percent", max=1000, sizebits=9, covers=["percent"]))
    for pol in wm:
        hs.append(cache(prop, pol, 0, (3, 4), (4, 5), tag="-watermarks", max=1024, sizebits=9, watermarks=1, covers=["over the high watermark"],
            bounds="any history of `ops` requests of up to `files` files on a %s cache of 1024 MB with any low watermark below any high watermark (in steps of half a percent)" % pol))
    for pol in rd:
        hs.append(cache(prop, pol, CST, (3, 4), (4, 5), tag="-redirect", sizebits=15, redirect=1, covers=["redirect"]))
    return hs

ORD = ["lru", "lfu", "big", "small"]
C("C01", family(1, ALL[:-1], 0, wm=["lru", "big"]), COUT)
C("C02", family(2, ALL, FREE, pct=["lru", "lfu"], wm=["lru"], cut=1), COUT)
C("C03", family(3, ALL, FREE | CFI, rd=["lru"], cut=1), COUT)
C("C07", family(7, ORD + ["weight", "dataset", "random", "random_lru"], FREE, pct=ORD, cut=1), COUT)
C("C08", family(8, ALL, CST, rd=["lru"], wm=["lru"], cut=1), COUT)
C("C09", family(9, [], 0, rd=ORD + ["weight", "random_lru", "dataset"]) + [cache(9, "lru", 0, (3, 4), (4, 5), tag="-off")], COUT)
CHECKS["C09"]["harnesses"] += [H("%s-edge" % p, "cache", ["cache_h.go", "cache2_h.go"], "vhRedirectEdge", dict(policy=POL[p]), {}, {}, qb=10, tb=10, covers=["at the edge", "below", "above"],
    bounds="misses of any two sizes that use exactly 95% of the bandwidth, one megabyte less or one more, then a miss", rand=p == "random_lru") for p in ORD + ["dataset"]]
C("C10", family(10, [], 0, wm=ORD + ["weight", "dataset", "random"]), COUT)
C("C16", [cache(16, p, CNT, q, t, read=1, covers=["miss after delete"]) for p, q, t in (("lru", (3, 6), (4, 7)), ("lfu", (3, 5), (3, 6)), ("weight", (3, 5), (3, 6)))] +
  [cache(16, "lru", CNT | FREE, (2, 5), (3, 6), tag="-free", read=1, covers=["miss after delete"])] + family(16, [], 0, pct=["lru"]), COUT)
C("C28", family(28, ["infinite"], CST), COUT)
C("C29", family(29, ["dataset"], FREE), COUT)
C("C30", [cache(30, "lru", CST, (2, 3), (3, 4), sizebits=8, tb=200), cache(30, "infinite", 0, (2, 3), (3, 4), sizebits=8, covers=UNB)], COUT)

SF = ["stats_h.go"]
def fstat(name, func, q, t, covers=(), bounds="", tb=150, **conf):
    return H(name, "cache/files", SF, func, conf, q, t, qb=20, tb=tb, covers=list(covers), bounds=bounds)

C("C11", [
    fstat("fields", "vhStatsFields", dict(files=2, ops=4), dict(files=3, ops=5), ["repeated request"], wholedays=0,
        bounds="any `ops` requests of up to `files` files at any times (seconds), any sizes, users and sites, hits or misses; all records compared after each"),
    fstat("ring", "vhStatsRing", dict(requests=34), dict(requests=66), ["wrapped"], wholedays=1,
        bounds="`requests` requests of one file on any non-decreasing days, one of another file at any position between them"),
], "x")
C("C12", [fstat("purge", "vhStatsPurge", dict(files=2, ops=3), dict(files=2, ops=4), ["purged"], wholedays=1, prop=12, clear=0,
    bounds="any `ops` requests on any days and purges with any set of resident files, any purge period and retention in half days")], "x")
C("C13", [fstat("mean", "vhStatsPurge", dict(files=2, ops=4), dict(files=3, ops=5), ["purged"], wholedays=1, prop=13, clear=1,
    bounds="any `ops` requests with any new weight, purges with any residents, clears")], "x")


C2F = ["cache_h.go", "cache2_h.go"]
def two(name, func, pol, q, t, covers=(), bounds="", tb=150, **conf):
    cf = dict(policy=POL[pol], sizebits=16, max=0, redirect=0, purge=0, alpha=1, beta=1, gamma=1, function=0, days=0)
    cf.update(conf)
    return H(name, "cache", C2F, func, cf, q, t, qb=20, tb=tb, covers=list(covers), bounds=bounds, rand=pol in ("random", "random_lru"))

CHECKS["C12"]["harnesses"] += [two("cache-" + p, "vhFileStats", p, dict(files=2, ops=3), dict(files=3, ops=4), ["purged"], purge=1) for p in ("lru", "lfu", "weight")]
CHECKS["C13"]["harnesses"] += [two("additive", "vhWeighted", "weight", dict(files=2, ops=4), dict(files=3, ops=5), ["stored", "declined", "hit"]),
  two("additive-days", "vhWeighted", "weight", dict(files=2, ops=3), dict(files=2, ops=4), ["stored", "declined", "purged"], purge=1, alpha=-2, beta=1, gamma=1),
  two("additive-clear", "vhWeighted", "weight", dict(files=2, ops=4, clear=1), dict(files=2, ops=5, clear=1), ["stored", "declined"]),
  two("exponential", "vhWeighted", "weight", dict(files=2, ops=3), dict(files=3, ops=4), ["stored", "declined"], function=1, alpha=2, beta=1, gamma=0),
  two("multiplicative", "vhWeighted", "weight", dict(files=2, ops=3), dict(files=3, ops=4), ["stored", "declined"], function=2, alpha=2, beta=1, gamma=0)]
C("C14", [two("clear-" + p, "vhClear", p, dict(files=2, before=2, after=2), dict(files=3, before=3, after=3), ["hit after"]) for p in ALL if not p.startswith("random")] +
   [two("clear-days-" + p, "vhClear", p, dict(files=2, before=2, after=2), dict(files=2, before=2, after=3), ["hit after"], purge=1) for p in ("lfu", "weight")] +
   [two("stats-" + p, "vhClearParts", p, dict(files=2, before=2, after=2), dict(files=3, before=3, after=2), [], stats=1) for p in ALL if not p.startswith("random")] +
   [two("files-" + p, "vhClearParts", p, dict(files=2, before=2, after=2), dict(files=3, before=3, after=2), [], stats=0) for p in ALL if not p.startswith("random")], "x")
C3F = C2F + ["dump_h.go"]
DET = [p for p in ALL if not p.startswith("random")]
def dump(pol, q, t, tag="", covers=("stored before",), **conf):
    cf = dict(policy=POL[pol], sizebits=16, max=0, redirect=0, purge=0, alpha=1, beta=1, gamma=1, function=0, file=0, days=0, ring=0)
    cf.update(conf)
    return H("dump-" + pol + tag, "cache", C3F, "vhDump", cf, q, t, qb=20, tb=150, covers=list(covers), rand=pol in ("random", "random_lru"),
        bounds="any history of up to `before` requests of up to `files` files, a dump loaded into a fresh cache, then any history of up to `after` requests on both")
HM = ["stored before", "hit after", "miss after"]
C("C15", [dump(p, dict(files=3, before=4 if p in ("lru", "lfu", "infinite") else 3, after=2), dict(files=3, before=4, after=4), covers=HM) for p in DET] +
  [dump(p, dict(files=2, before=3, after=2), dict(files=3, before=4, after=3), tag="-days", days=1, covers=HM) for p in ("lfu", "weight")] +
  [dump(p, dict(files=2, before=3, after=2), dict(files=3, before=3, after=3), tag="-file", file=1, covers=HM) for p in ("lru", "big", "weight", "infinite")] +
  [dump(p, dict(files=2, before=1, after=2), dict(files=2, before=2, after=2), tag="-often%d" % r, ring=r, covers=["hit after"], gamma=2) for p in ("weight",) for r in (31, 33)] +
  [dump(p, dict(files=3, before=3, after=0), dict(files=3, before=5, after=0)) for p in ("random", "random_lru")], "x")
AF = ["cache_h.go", "airl_h.go"]
def agents(name, q, t, covers=(), bounds="", **conf):
    cf = dict(agents=0, mode=0, k=1, cats=1, epsilon=100, occupancy=0, menu=0, sizebits=10, max=0)
    cf.update(conf)
    return H(name, "cache", AF, "vhAgents", cf, q, t, qb=20, tb=150, covers=list(covers), rand=True, repeat=60,
        bounds=bounds or "any history of `ops` operations on a learned cache, any decision of its agents")
EVA = ["hit", "eviction", "stored", "decision"]
C("C21", [agents("scdl", dict(files=3, ops=4), dict(files=3, ops=5), ["hit", "eviction", "stored", "skipped"], menu=1),
  agents("scdl2", dict(files=3, ops=4), dict(files=3, ops=5), ["hit", "eviction", "stored", "skipped"], agents=3, menu=1),
  agents("evict-free", dict(files=3, ops=4), dict(files=3, ops=5), EVA, agents=1, mode=1),
  agents("evict-free-cats", dict(files=3, ops=4), dict(files=3, ops=5), EVA, agents=1, mode=1, cats=2),
  agents("evict-k", dict(files=2, ops=3), dict(files=3, ops=4), EVA, agents=1, mode=0),
  agents("evict-k-three", dict(files=3, ops=4), dict(files=4, ops=5), EVA, agents=1, mode=0, k=2, sizebits=0, max=9),
  agents("evict-k-five", dict(files=5, ops=5), dict(files=6, ops=6), EVA[1:], agents=1, mode=0, k=4, sizebits=0, max=9),
  agents("evict-day", dict(files=2, ops=4), dict(files=3, ops=4), EVA + ["end of day"], agents=1, mode=2, menu=1),
  agents("both-free", dict(files=2, ops=3), dict(files=3, ops=4), EVA, agents=2, mode=1),
  agents("both-k", dict(files=2, ops=3), dict(files=3, ops=4), EVA, agents=2, mode=0),
  agents("both-day", dict(files=2, ops=3), dict(files=3, ops=4), EVA, agents=2, mode=2, menu=1),
  agents("learned-free", dict(files=2, ops=4), dict(files=3, ops=5), ["hit", "decision"], agents=1, mode=1, cats=2, epsilon=0),
  agents("learned-both", dict(files=2, ops=3), dict(files=3, ops=5), ["hit"], agents=2, mode=1, epsilon=0),
  agents("clear", dict(files=2, ops=4), dict(files=3, ops=4), EVA, agents=1, mode=1, menu=14),
  ], "x")
def adump(name, q, t, covers=(), **conf):
    h = agents(name, q, t, covers, **dict(dict(file=0, agentsonly=0), **conf))
    h.update(func="vhDumpAgents", files=["cache_h.go", "cache2_h.go", "dump_h.go", "airl_h.go", "airldump_h.go"],
        bounds="any history of `before` requests of up to `files` files on a learned cache, a dump loaded into a fresh one, `after` requests on the loaded one, any decision of the agents")
    return h
CHECKS["C15"]["harnesses"] += [adump("agents-scdl", dict(files=2, before=3, after=1, sizebits=0), dict(files=2, before=2, after=1), ["hit", "stored"]),
  adump("agents-evict", dict(files=2, before=3, after=1), dict(files=3, before=3, after=2), ["hit", "stored", "decision"], agents=1, mode=1, cats=2),
  adump("agents-both-file", dict(files=2, before=2, after=1), dict(files=2, before=3, after=1), ["hit", "stored"], agents=2, mode=1, file=1),
  adump("agents-only", dict(files=2, before=3, after=1), dict(files=2, before=3, after=2), ["stored"], agents=1, mode=1, agentsonly=1)]
def feat(name, func, q, t, covers=(), bounds="", **kw):
    conf = kw.pop("conf", {})
    return H(name, "cache/ai/featuremap", ["feature_h.go"], func, conf, q, t, qb=20, tb=100, covers=list(covers), bounds=bounds, monotone=True, **kw)
C("C17", [
    feat("feature", "vhFeature", dict(values=3), dict(values=3), ["open", "above"], "one feature of any type with up to `values` arbitrary increasing bounds, any probe value, plain file", conf=dict(types=4, gz=0), maporder=True),
    feat("feature-gz", "vhFeature", dict(values=1), dict(values=2), ["open", "above"], "the same from a compressed file", conf=dict(types=4, gz=1)),
    feat("feature-large", "vhFeatureLarge", {}, {}, [], "an integer feature with five bounds up to 2^62, any 64-bit probe value"),
    feat("map", "vhFeatureMap", dict(values=2, features=2), dict(values=3, features=2), [], "`features` features of any kinds with up to `values` values each", conf=dict(types=4)),
    feat("map-numbers", "vhFeatureMap", dict(values=2, features=3, types=1), dict(values=2, features=3, types=2), [], "`features` numeric features with up to `values` bounds each"),
  ], "x")
def ql(name, func, q, t, covers=(), bounds="", **kw):
    conf = kw.pop("conf", {})
    return H(name, "cache/ai/qlearn", ["qlearn_h.go"], func, conf, q, t, qb=20, tb=100, covers=list(covers), bounds=bounds, rand=True, **kw)
C("C18", [ql("table", "vhTable", dict(features=4, values=3), dict(features=5, values=4), [], "tables of up to `features` features with up to `values` values each, every combination of positions, every value of the features")], "x")
C("C19", [ql("update", "vhUpdate", dict(states=3), dict(states=4), [], "any values of a table with `states` states, any state, next state, action and reward"),
    ql("best", "vhBest", {}, {}, [], "any values of a state, any random draw"),
    ql("epsilon", "vhEpsilon", dict(steps=6), dict(steps=9), ["unleashed"], "any starting rate within 0..1, four decay rates, any `steps` updates and unleashes"),
    ql("unleash", "vhUnleash", {}, {}, [], "any starting rate within 0..1, targets 0.15..1 in steps of 0.05"),
    ql("memory", "vhMemory", dict(ops=4), dict(ops=5), ["oldest forgotten", "remembered"], "any `ops` operations on the memories of two keys, one of them holding 0, 30, 31 or 33 choices before")], "x")
def cat(name, q, t, covers=(), bounds="", **kw):
    conf = dict(dict(epsilon=-100, recency=0, last=0, resize=0), **kw.pop("conf", {}))
    return H(name, "cache", ["category_h.go"], "vhCategories", conf, q, t, qb=20, tb=100, covers=list(covers), rand=True,
        bounds=bounds or "any `ops` additions, updates and deletions of up to `files` files of any sizes, request counts and recency", **kw)
CM = ["deleted", "moved", "several categories"]
C("C20", [cat("history", dict(files=3, ops=4), dict(files=3, ops=5), CM),
    cat("history-end", dict(files=3, ops=4), dict(files=3, ops=5), CM, conf=dict(last=1)),
    cat("resized", dict(files=2, ops=4), dict(files=3, ops=5), CM, conf=dict(resize=1), bounds="the same with a new size at every request of a file; a category occupies the sizes its files had when they joined it"),
    cat("recency", dict(files=3, ops=4), dict(files=3, ops=5), CM, conf=dict(recency=1)),
    cat("explore", dict(files=2, ops=2), dict(files=3, ops=3), [], conf=dict(recency=1, epsilon=100)),
    cat("schedule", dict(files=3, ops=3), dict(files=3, ops=4), ["several categories"], conf=dict(last=1, recency=1), sched=True, preempt=1, maporder=True)], "x")
def rdr(name, func, q, t, covers=(), bounds="", **kw):
    conf = kw.pop("conf", {})
    return H(name, "cache", ["reader_h.go"], func, conf, q, t, qb=20, tb=100, covers=list(covers), bounds=bounds, monotone=True, **kw)
C("C23", [rdr("filters", "vhFilters", {}, {}, ["accepted", "refused"], "each filter on a record with arbitrary fields (integers up to 2^61 in absolute value)")], "x")
C("C24", [rdr("columns", "vhColumns", {}, {}, [], "one record of arbitrary values under every rotation, swap of two columns, move of a column to the end, further column, and reversal; plain and compressed files"),
    rdr("records", "vhRecords", dict(records=5), dict(records=8), [], "up to `records` records of arbitrary values, plain and compressed, two orders of the columns"),
    rdr("folder", "vhFolder", dict(records=1), dict(records=2), [], "five files (one not to be read) of up to `records` records each, created in any rotation"),
    rdr("schedule", "vhRecords", dict(records=3), dict(records=4), [], "the same under any schedule of reader and consumer", sched=True, preempt=1)], "x")
C("C25", [rdr("units", "vhUnits", {}, {}, ["known", "unknown"], "any size under the eight units and thirteen others")] +
  [cache(25, p, CST, q, t, tag="-" + (r or "any"), region=r, sizebits=8, qb=30) for p, r, q, t in (("lru", "", (2, 4), (3, 4)), ("lru", "it", (2, 4), (3, 4)), ("lru", "us", (2, 4), (3, 4)),
    ("weight", "", (2, 3), (2, 4)), ("infinite", "", (2, 3), (2, 4)))], "x")
def sim(name, q, t, covers=(), bounds="", func="vhSimulate", **conf):
    cf = dict(kind="lru", files=2, sizebits=10, filters=0, cpu=0, days=0, windows=0, redirect=0, folder=0, stats=0, max=0, progress=0, agents=0, mode=0, k=1, cats=1, epsilon=100, occupancy=0)
    cf.update(conf)
    return H(name, "cache", ["cache_h.go", "cache2_h.go", "reader_h.go", "airl_h.go", "sim_h.go"], func, cf, q, t, qb=40, tb=150, coarse=True, monotone=True, covers=list(covers), bounds=bounds,
        rand=cf["kind"] in ("aiRL", "random", "random_lru"))
SC = ["row", "several served"]
C("C22", [sim("days", dict(records=5), dict(records=7), SC, days=1, bounds="`records` records of two files at any times within a week, in any order"),
    sim("windows", dict(records=7), dict(records=9), SC + ["jumped", "stopped"], days=2, windows=1, files=1, bounds="`records` records of one file, up to two days between any two; window of one or two days, first window 0..2, last window the first, the second or never"),
    sim("filters", dict(records=2), dict(records=3), ["filtered", "several served"], filters=1, bounds="records with any outcome, exit code, data type, file type and site under any pair of filters"),
    sim("filters-windows", dict(records=2), dict(records=3), ["filtered", "jumped"], filters=1, windows=1, days=2, files=1, cpu=2, bounds="filters, windows and any efficiency together"),
    sim("invalid", dict(records=2), dict(records=3), ["invalid", "several served"], cpu=1, bounds="records with any CPU and I/O times within -1000..1000 in quarters"),
    sim("efficiency", dict(records=3), dict(records=4), ["invalid", "row"], cpu=2, days=2, bounds="records with any efficiency within -150..150 (in 1/16), local and remote, any times"),
    sim("redirected", dict(records=5), dict(records=7), ["redirected", "row"], redirect=1, days=2, sizebits=15, bounds="records of files of any size up to 2^15 MB with a bandwidth of 1/1024 Gbit"),
    sim("redirected-progress", dict(records=4), dict(records=6), ["redirected", "row"], redirect=1, days=2, sizebits=15, progress=1, windows=1, bounds="the same in windows with a progress report at every record"),
    sim("evict", dict(records=4, files=3), dict(records=6, files=3), SC, days=2, max=1, bounds="any cache size, so files are evicted"),
    sim("folder", dict(records=5), dict(records=6), SC, days=2, folder=1, windows=1, files=1, bounds="the records divided between two compressed files of a folder"),
    sim("statistics", dict(records=3), dict(records=4), SC, days=2, stats=1, kind="weightFunLRU", max=1, bounds="a weighted cache; records of any users, sites and file types")] +
    [sim("kind-" + k, dict(records=4), dict(records=5), SC, days=2, kind=k, max=1) for k in ("lfu", "sizeBig", "sizeSmall", "infinite", "random_lru")] +
    [sim("agents-" + n, dict(records=2 if n in ("scdl", "both-day") else 3), dict(records=3), SC, days=2, kind="aiRL", max=1, agents=a, mode=m, bounds="a learned cache (%s), any decision of its agents" % n) for n, a, m in (("scdl", 0, 0), ("scdl2", 3, 0), ("evict-free", 1, 1), ("both-day", 2, 2))] +
    [sim("agents-filters", dict(records=2), dict(records=3), ["filtered"], days=2, filters=1, kind="aiRL", agents=1, mode=1, bounds="a learned cache with records that are filtered")] +
    [sim("resume-" + k, dict(before=2, after=2), dict(before=3, after=3), ["hot", "cold", "cold without statistics", "row"], func="vhResume", days=2, kind=k, max=1,
        bounds="a run of up to `before` records that leaves a dump and a run of up to `after` that starts from it, hot, cold or without statistics") for k in ("lru", "weightFunLRU", "infinite")], "x")
def elog(pol, q, t, tag="", covers=("added",), bounds="", sched=False, preempt=0, menu=1, **conf):
    cf = dict(policy=POL[pol], prop=26, sizebits=20, max=0, watermarks=0, redirect=0, menu=menu, read=0, tail=0)
    cf.update(conf)
    return H(pol + tag, "cache", CF + ["log_h.go"], "vhLog", cf, dict(files=q[0], ops=q[1]), dict(files=t[0], ops=t[1]), qb=20, tb=100,
        covers=list(covers), bounds=bounds or "any history of `ops` requests of up to `files` files, lookups and freeing rounds on a %s cache with logging" % pol,
        rand=pol in ("random", "random_lru"), sched=sched, preempt=preempt, maporder=pol == "infinite")
C("C26", [elog(p, (3, 3), (3, 4), covers=("added", "lookup", "free") + (("deleted",) if p != "infinite" else ())) for p in ALL] +
    [elog("lru", (3, 3), (3, 4), "-redirect", ("added", "redirected"), menu=0, redirect=1, sizebits=15),
     elog("lru", (3, 2), (3, 3), "-watermarks", ("added", "deleted"), menu=0, watermarks=1, sizebits=9, max=500),
     elog("lru", (2, 2), (2, 3), "-tail", ("added",), tail=60, bounds="`ops` requests of up to `files` files, lookups and freeing rounds, then 60 lookups (more than the buffer of the log holds)"),
     elog("lru", (2, 1), (2, 2), "-schedules", ("added",), tail=2, menu=0, sched=True, preempt=2, bounds="the same with all interleavings of the cache and its log writer with up to 2 preemptions")], "x")
def alog(name, q, t, covers=(), **conf):
    h = agents(name, q, t, covers, **conf)
    h.update(func="vhLogAgents", files=["cache_h.go", "cache2_h.go", "airl_h.go", "log_h.go", "log2_h.go"],
        bounds="any history of `ops` requests of up to `files` files (and ends of a day) on a learned cache with logging, any decision of its agents")
    return h
CHECKS["C26"]["harnesses"] += [alog("agents-scdl", dict(files=3, ops=3), dict(files=3, ops=4), ["added", "skipped", "deleted"], max=1000),
  alog("agents-scdl2", dict(files=3, ops=3), dict(files=3, ops=4), ["added", "skipped", "deleted"], agents=3, max=1000),
  alog("agents-evict-free", dict(files=2, ops=3), dict(files=3, ops=4), ["added", "kept", "deleted"], agents=1, mode=1, cats=2),
  alog("agents-evict-k", dict(files=2, ops=2), dict(files=2, ops=3), ["added", "kept", "deleted"], agents=1, mode=0),
  alog("agents-evict-day", dict(files=2, ops=3), dict(files=2, ops=4), ["added", "kept", "deleted", "end of day"], agents=1, mode=2, menu=1),
  alog("agents-both-free", dict(files=2, ops=2), dict(files=2, ops=3), ["added", "skipped", "deleted"], agents=2, mode=1)]
PYTECH = ("symbolic execution of the Python code of /repo in CPython with z3-valued inputs; branches and assertions decided by z3; "
          "counterexamples replayed with plain values")
def PH(name, module, func, conf, q, t, covers=(), bounds="", qb=45, tb=300, **kw):
    return dict(dict(name=name, module=module, func=func, conf=conf, q=q, t=t, covers=list(covers), bounds=bounds, qbudget=qb, tbudget=tb), **kw)
def PC(id, harnesses, outside, assumptions=()):
    C(id, harnesses, outside, assumptions, technique=PYTECH)
PC("P31", [PH("lru", "h_lru", "lru", dict(max=0), dict(names=3, requests=5), dict(names=4, requests=7), ["hit", "eviction", "larger than the cache"],
    "any history of `requests` requests of up to `names` files of any sizes up to 8000 (multiples of 1/4) on a cache of any size up to 4000")], "x")
PC("P32", [PH("caches-" + k, "h_evalcache", "caches", dict(kind=k), dict(names=3, cap=2, requests=4), dict(names=4, cap=3, requests=6), ["hit", "resumed"] + (["eviction"] if k != "simple" else []),
    "any history of `requests` requests of up to `names` files, stored or not, with saved and restored states, on a %s cache of up to `cap` files" % k) for k in ("simple", "fifo", "lru")] +
  [PH("evaluation-" + k, "h_evalcache", "evaluation", dict(kind=k), dict(names=3, cap=2, requests=3), dict(names=3, cap=2, requests=5), ["whole strides", "a rest"],
    "the comparison of up to `requests` requests of up to `names` files with any predictions of the model, %s caches of up to `cap` files" % k) for k in ("fifo", "lru")] +
  [PH("separators", "h_evalcache", "separators", {}, dict(requests=3), dict(requests=4), ["days"], "up to `requests` requests with or without a time, 0 to 3 days apart")], "x")
PC("P33", [PH("checkpoints", "h_files", "checkpoints", {}, dict(records=4, ops=2), dict(records=6, ops=3), ["started from", "indexed"], "one or two checkpoints in a file of `records` records, then any `ops` accesses"), PH("slices", "h_files", "slices", {}, dict(top=6), dict(top=12), ["forward", "backward"], "every slice with bounds and step up to `top`"),
    PH("slices-refused", "h_files", "slice_wrong", {}, {}, {}, bounds="slices without stop or with a negative start")] +
  [PH("reader-" + f, "h_files", "reader", dict(format=f), dict(records=q[0], ops=q[1]), dict(records=t[0], ops=t[1]),
    ["indexed", "slice", "read through"] + (["from the end", "started from", "checkpoint"] if f != "avro" else []),
    "any history of `ops` accesses of a file with up to `records` records (%s)" % f, lines=60000, qb=100 if f == "bytes" else 45) for f, q, t in
    (("bytes", (2, 2), (3, 3)), ("plain", (3, 1), (3, 2)), ("gz", (3, 1), (3, 2)), ("bz2", (3, 1), (3, 2)), ("avro", (2, 2), (3, 3)))], "x")
PC("P34", [PH("writer-" + f, "h_files", "writer", dict(format=f), dict(appends=q), dict(appends=t), ["initial data"] + (["appended later"] if f != "bytes" else []),
    "any history of `appends` appends of records, texts, lists and generators (%s)" % f, lines=60000) for f, q, t in (("bytes", 2, 3), ("plain", 1, 2), ("gz", 1, 2), ("bz2", 1, 2))] +
    [PH("writer-refuses", "h_files", "writer_wrong", {}, {}, {}, bounds="data that is no JSON object or text")], "x")
PC("P35", [PH("windows", "h_batches", "windows", {}, dict(window=6), dict(window=14), ["this", "next"], "windows and steps of up to `window` days from any day")], "x")
PC("P36", [PH("batches-" + w, "h_batches", "batches", dict(who=w), dict(records=5), dict(records=9), ["rest", "whole"], "up to `records` records and any batch size") for w in ("chunks", "pipeline", "resource", "raw")] +
  [PH("stage-processes", "h_batches", "stage", dict(spark=0, early=0), dict(batches=3, workers=2, patience=2), dict(batches=5, workers=3, patience=4), ["more batches than workers", "few batches"], "up to `batches` batches on up to `workers` processes that end when they like (up to `patience` joins that time out)"),
   PH("stage-early", "h_batches", "stage", dict(spark=0, early=1), dict(batches=3, workers=2, patience=3), dict(batches=4, workers=3, patience=5), ["more batches than workers"], "processes that also end between the join and the look at them"),
   PH("stage-spark", "h_batches", "stage", dict(spark=1, early=0, patience=0), dict(batches=5, workers=3), dict(batches=9, workers=4), ["more batches than workers"], "up to `batches` batches on a Spark context of any parallelism up to `workers`"),
   PH("upload", "h_batches", "upload", {}, dict(records=4), dict(records=7), ["bulk", "one by one"], "up to `records` elements, any size of bulks and any initial index")], "x")
PC("P37", [PH("settings", "h_pipeline", "settings", {}, {}, {}, ["both", "apart"], "any settings out of three, of the stage and of the pipeline, with any values")] + [PH("pipeline-" + n, "h_pipeline", "pipeline", dict(spark=sp, days=d, names=k, types=t), q, th, ["all counted"] + x,
    "up to `records` requests of %d files of any CPU times, any batch size%s" % (k, ", split over two days" if d else "")) for n, sp, d, k, t, q, th, x in (
    ("processes", 0, 0, 4, 1, dict(records=3), dict(records=4), ["dropped", "good and bad"]), ("names", 0, 1, 6, 0, dict(records=2), dict(records=3), ["dropped"]),
    ("spark", 1, 0, 3, 0, dict(records=3), dict(records=4), ["good and bad"]))] +
  [PH("records", "h_pipeline", "records", {}, dict(records=2), dict(records=3), ["of a batch"], "the sum of up to `records` records")], "x")
PC("P38", [PH("reads-" + k, "h_pipeline", "reads", dict(kind=k, starts=4), dict(window=3, files=2), dict(window=5, files=3), ["several days", "few days"],
    "windows of up to `window` days over the end of a month and a year" + (", up to `files` files a day" if k == "httpfs" else "")) for k in ("local", "httpfs", "hdfs")] +
  [PH("saves-" + k, "h_pipeline", "saves", dict(kind=k), dict(records=3), dict(records=5), ["some", "none"], "up to `records` records") for k in ("local", "httpfs", "dataset")] +
  [PH("saved-stages", "h_pipeline", "stored", {}, dict(records=2), dict(records=3), [], "pipelines over up to `records` requests that save their stages", lines=600000)], "x")
PC("P39", [PH("tables", "h_tables", "tables", {}, dict(ops=4, words=2), dict(ops=5, words=3), ["unknown", "converted", "vectors"], "any history of `ops` insertions, indexings and conversions of `words` words in two features"),
    PH("tables-words", "h_tables", "tables", {}, dict(ops=3, words=5), dict(ops=4, words=5), ["converted", "vectors"], "histories of `ops` steps with words that begin others or differ in case"),
    PH("train-sets", "h_tables", "reader", {}, dict(records=3, names=2, requests=1, folds=2), dict(records=4, names=3, requests=2, folds=4), ["folds", "whole"], "up to `records` records and `folds` folds")], "x")
PC("P40", [PH("converter-" + k, "h_tables", "converter", dict(kind=k), dict(rows=q, top=3), dict(rows=t, top=4), ["last bucket"] if k == "buckets" else [], "tables of `rows` rows of any values (%s)" % k) for k, q, t in
    (("buckets", 1, 2), ("int", 2, 3), ("float", 2, 3), ("bool", 2, 3), ("str", 2, 3))], "x")
PC("P41", [PH("rounds", "h_log", "rounds", dict(named=0, events=1, others=3, names=1, times=1, first=0), dict(rows=3), dict(rows=5), ["rounds", "no round", "kept"], "any log of up to `rows` rows, with any sizes, requests and times"),
    PH("rounds-times", "h_log", "rounds", dict(named=0, events=1, others=0, names=1, times=1, first=1), dict(rows=4), dict(rows=6), ["rounds", "kept"], "any `rows` rows of events and choices that begin with an event, with any sizes, requests and times"),
    PH("rounds-misses", "h_log", "rounds", dict(named=0, events=1, others=2, names=2, times=0, first=1), dict(rows=4), dict(rows=6), ["rounds", "kept", "misses after a deletion"], "any `rows` rows of two files that begin with an event, with any sizes and requests"),
    PH("rounds-events", "h_log", "rounds", dict(named=1, events=5, others=5, names=1, times=1, first=0), dict(rows=3), dict(rows=4), ["rounds", "no round"], "any log of up to `rows` rows of every kind"),
    PH("frequencies", "h_log", "frequencies", dict(names=2), dict(rows=4, kinds=6), dict(rows=6, kinds=6), ["deleted", "skipped"], "any log of up to `rows` rows of two files, skips after their misses"),
    PH("reports", "h_log", "reports", dict(names=1), dict(rows=2, folders=7), dict(rows=3, folders=7), ["two simulations"], "one or two simulations, named in ways that begin or contain each other, with logs of up to `rows` rows"),
    PH("bins", "h_log", "bins", {}, dict(values=4), dict(values=6), ["values"], "up to `values` values, any total")], "x")
PC("P42", [PH("container", "h_probe", "container", {}, dict(ops=3, values=2, categories=2), dict(ops=3, values=3, categories=3), ["restarted", "asked"], "any history of `ops` updates, queries and restarts"),
    PH("converter", "h_probe", "converter", {}, dict(inputs=2, rows=2, files=2, sites=2), dict(inputs=3, rows=2, files=3, sites=2), ["stopped", "files"], "up to `inputs` files of up to `rows` rows, stopped between any two saves and started again", lines=200000),
    PH("ordered", "h_probe", "ordered", {}, dict(rows=4, files=2), dict(rows=5, files=3), ["repeated"], "any permutation of up to `rows` requests of `files` files")], "x")
PC("P43", [PH("table", "h_probe", "table", {}, dict(simulations=2, days=1, volumes=1), dict(simulations=3, days=2, volumes=2), ["simulations", "not listed"], "up to `simulations` simulations of up to `days` days with any values"),
    PH("table-days", "h_probe", "table", {}, dict(simulations=1, days=3, volumes=2), dict(simulations=2, days=3, volumes=2), [], "simulations of up to `days` days with any values"),
    PH("missing-columns", "h_probe", "missing", {}, dict(days=2, volumes=1), dict(days=3, volumes=2), [], "every measure and column"),
    PH("filters", "h_probe", "filters", {}, dict(results=1), dict(results=2), ["passes", "does not pass"], "up to `results` results and three filters")], "x")
PC("P44", [PH("csv-filters", "h_probe", "csv", dict(filters=1), dict(inputs=1, rows=1, files=2, sites=2), dict(inputs=2, rows=1, files=2, sites=3), ["concatenated", "generated", "list", "with names"], "folders of up to `inputs` files of up to `rows` rows, any region, type and month"),
    PH("csv-files", "h_probe", "csv", dict(filters=0), dict(inputs=3, rows=1, files=1, sites=1), dict(inputs=3, rows=2, files=2, sites=1), ["concatenated", "generated", "list", "with names"], "folders of up to `inputs` files of up to `rows` rows, any month")], "x")
ONE = dict(files=2, users=1, sites=1, types=1, outcomes=1)
PC("P45", [PH("limits", "h_stats", "limits", dict(ONE, types=3, outcomes=2), dict(days=2, requests=1), dict(days=2, requests=2), ["day without requests"], "up to `days` days of up to `requests` requests of two files of any sizes"),
    PH("limits-days", "h_stats", "limits", ONE, dict(days=2, requests=3), dict(days=3, requests=3), ["hits"], "up to `days` days of up to `requests` requests of two files of any sizes"),
    PH("weeks", "h_stats", "weeks", dict(ONE, users=2), dict(free=2), dict(free=2, sites=2), ["weeks"], "one or two weeks, a day more or less"),
    PH("daily", "h_stats", "daily", dict(ONE, resets=2), dict(requests=5), dict(requests=7), ["started again", "repeated"], "up to `requests` requests of two files of any sizes over any days"),
    PH("daily-users", "h_stats", "daily", dict(ONE, users=2, sites=2, resets=0), dict(requests=3), dict(requests=4), ["repeated"], "up to `requests` requests of two users and sites"),
    PH("bins", "h_stats", "bins", ONE, dict(days=1, requests=3), dict(days=1, requests=4), ["size", "numReq", "deltaLastRequest", "concatenated", "by day"], "up to `days` days of up to `requests` requests of two files of any sizes"),
    PH("bins-days", "h_stats", "bins", dict(ONE, outcomes=2, files=1), dict(days=2, requests=2), dict(days=2, requests=3), ["size", "numReq", "deltaLastRequest", "concatenated", "by day"], "up to `days` days of up to `requests` requests of any sizes, successful or not")], "x")
PC("P46", [PH("put", "h_agent", "put", dict(values=2, auths=1, urls=1), dict(records=4, bulk=5, fails=0), dict(records=7, bulk=8, fails=0), ["batch", "sent"], "up to `records` records, any size of the batches up to `bulk`, any first index"),
    PH("put-refused", "h_agent", "put", dict(values=1, auths=1, urls=1), dict(records=4, bulk=3, fails=2), dict(records=6, bulk=4, fails=6), ["batch", "sent", "refused"], "up to `records` records, any of the first `fails` answers of the archive"),
    PH("put-auth", "h_agent", "put", dict(values=4, auths=4, urls=2), dict(records=1, bulk=1, fails=0), dict(records=2, bulk=1, fails=0), ["batch", "sent"], "every form of user, password and url"),
    PH("ids", "h_agent", "same_id", {}, {}, {}, ["sent"], "pairs of records of every kind"),
    PH("get", "h_agent", "get", {}, dict(records=3), dict(records=6), ["slice"], "any index or slice of up to `records` records"),
    PH("httpfs", "h_agent", "httpfs", dict(users=1, data=2, chunk=3), dict(ops=2, names=2, fails=1), dict(ops=3, names=3, fails=2), ["refused", "deleted", "listed", "read"], "any history of `ops` operations against a server that may refuse `fails` of them"),
    PH("httpfs-options", "h_agent", "httpfs", dict(users=2, names=1, data=3, chunk=12, fails=1), dict(ops=1), dict(ops=2), ["refused"], "any options of the connection and contents, any size of the chunks up to `chunk`"),
    PH("create-wrong", "h_agent", "create_wrong", {}, {}, {}, ["refused"], "things that cannot be sent"),
    PH("csv", "h_agent", "rows", dict(texts=5), dict(fields=2), dict(fields=2), [], "up to `fields` fields of any kind of value"),
    PH("svm", "h_agent", "svm", {}, dict(fields=2), dict(fields=3), ["rows", "refused"], "up to `fields` fields")], "x")
LEG = dict(dir="qLearning_smartCache", legacy=True, qb=30, tb=200)
C("Q34", [H("history", "cache", ["legacyc_h.go"], "vhLegacyCache", {}, dict(files=3, requests=4), dict(files=4, requests=5), covers=["stored", "removed"], bounds="any `requests` requests of `files` files of any sizes within the cache, each stored or not", **LEG),
    H("order", "cache", ["legacyc_h.go"], "vhLegacyCache", {}, dict(files=2, requests=3), dict(files=3, requests=3), covers=["stored", "removed"], bounds="any `requests` requests of `files` files, the files of the cache in any order", maporder=True, **LEG)], "x")
C("Q35", [H("table", "qtable", ["legacyq_h.go"], "vhLegacyTable", {}, dict(features=2, values=3), dict(features=3, values=3), bounds="tables of up to `features` features of up to `values` values, any pair of values", **LEG),
    H("update", "qtable", ["legacyq_h.go"], "vhLegacyUpdate", {}, dict(features=2, values=2, updates=1), dict(features=2, values=3, updates=2), covers=["other state"], bounds="any values of any two states, any `updates` updates, both orders of the actions", **LEG)], "x")
PC("P47", [PH("fields", "h_files", "avro", dict(appends=1), dict(fields=1, records=2), dict(fields=2, records=2), ["appended", "file"], "records of up to `fields` fields of any of 13 types, written up to `records` at a time at creation and by `appends` appends", lines=60000),
           PH("histories", "h_files", "avro", dict(fields=1), dict(appends=2, records=1), dict(appends=3, records=2), ["appended", "file"], "records of one field, written up to `records` at a time at creation and by up to `appends` appends", lines=60000)], "x")
RW = ["github.com/spf13/viper.*=vviper"] + ["simulator/v2/cache.%s=v%s" % (x, x) for x in ("Create", "InitInstance", "SetBandwidth", "SetRegion", "Simulate")]
def conffile(nm, func, keys, covers, bounds, **kw):
    return H(nm, ".", ["main_h.go"], func, dict(keys=keys), qb=60, tb=300, covers=covers, rewrite=RW, bounds=bounds, **kw)
C("Q36", [conffile("defaults", "vhConfiguration", 2, ["simulated", "kept"], "no key besides the type and region of the cache"),
          conffile("one-key", "vhConfiguration", 0, ["simulated", "kept"], "any one of the 48 keys with any value, four types of cache, every region, with and without earlier results"),
          conffile("all-keys", "vhConfiguration", 1, ["simulated", "kept"], "all 48 keys with any values, four types of cache, every region, with and without earlier results"),
          conffile("no-file", "vhNoConfiguration", 2, ["refused"], "without the configuration file, with others next to it")],
  "the parser of the configuration (a table of keys that ignores case stands for viper), values of a wrong type, texts other than the listed ones, the build of the cache and the simulation themselves (C01 to C30)")
PC("P48", [PH("histories-" + n, "h_weights", "histories", dict(kind=k, then=w), dict(names=q[0], requests=q[1]), dict(names=t[0], requests=t[1]),
    (["hit", "eviction", "larger than the cache"] if k == "lru" or not w else []) + (["restored", "cleared"] if w else []) + (["not heavier"] if not w and k != "lru" else []),
    "any history of `requests` requests of up to `names` files of any sizes up to 8000 on a cache of any size up to 4000, " + d + (", with a saved state, a clear or a reset at any point" if w else "")) for n, k, w, q, t, d in
    (("lru", "lru", 0, (3, 5), (4, 6), "least recently used first"), ("lru-state", "lru", 1, (3, 3), (3, 5), "least recently used first"),
     ("any", "any", 0, (3, 4), (4, 6), "with any costs from 1 to 8"), ("any-state", "any", 1, (3, 3), (3, 5), "with any costs from 1 to 8"),
     ("simple", "simple1", 0, (3, 4), (4, 5), "with the simple cost function"))] +
  [PH("replay-" + n, "h_weights", "replay", dict(server=k), dict(windows=2, requests=2 - k), dict(windows=2, requests=2), ["left out", "hit"] + (["next day"] if k else []),
    "`windows` windows of one or two files with `requests` requests of two files, " + d) for n, k, d in (("histories", 0, "the histories of each window"), ("server", 1, "the points sent to the plot server"))], "x")
PC("P49", [PH("kept", "h_plots", "kept", {}, dict(ops=2), dict(ops=3), ["replaced", "later window", "one value", "update", "information", "deleted"], "any `ops` updates, insertions and deletions for two caches"),
  PH("bins", "h_plots", "bins", {}, dict(bins=2, files=2), dict(bins=3, files=3), ["none", "last bin"], "up to `files` files of any sizes, hits and misses up to 9, in up to `bins` bins")] +
  [PH("drawn-" + k, "h_plots", "drawn", dict(what=k), dict(points=2 if k in ("plain", "compare") else 1, windows=2), dict(points=3 if k == "plain" else 2, windows=3 if k == "plain" else 2), ["line", "filtered out"], "up to three caches with `windows` windows of up to `points` values from 0 to 100, with filters (%s)" % d)
   for k, d in (("plain", "the values"), ("compare", "relative to the LRU cache"), ("ratio", "read over written data"), ("diff", "read less written data"))], "x")
PC("P50", [PH("day-" + k, "h_days", "day", dict(sizes=k), q, t, c, "days of `records` records, " + d) for k, q, t, c, d in
    (("none", dict(records=2, files=1), dict(records=3, files=1), ["next day", "looked at in between"], "any times, exit codes, lengths and cores"),
     ("sqlite", dict(records=3, files=3), dict(records=4, files=4), ["looked at in between", "sizes"], "with sizes from databases, known or not"),
     ("redis", dict(records=3, files=3), dict(records=4, files=4), ["looked at in between", "sizes", "another process"], "with sizes from databases through a cache that other processes fill as well"))] +
  [PH("window-" + n, "h_days", "window", dict(feather=f, tasks=t), dict(requests=3, days=2, sizes=2 + f), dict(requests=4, days=3, sizes=5), ["requested more often", "without size"],
    "windows of `requests` requests of up to three files of any CPU and I/O times, in up to `days` files (%s)" % n) for n, f, t in (("feather", 1, 0), ("csv", 0, 1))] +
  [PH("extracted", "h_days", "extracted", {}, dict(records=2), dict(records=3), ["records", "empty day"], "days of up to `records` records in the object store"),
   PH("periods", "h_days", "periods", {}, dict(days=5), dict(days=40), ["next month"], "periods of up to `days` days from five days at the end of a month, a year or February"),
   PH("rounded", "h_days", "rounded", {}, {}, {}, ["MB", "GB"], "sizes up to 20 GB")], "x")
OUT = dict(
    C11="longer histories, more files, clocks that go backwards, more than 34 requests of one file, sums of ages that round",
    C12="longer histories, more files, clocks that go backwards, purge periods that are not whole days in the calendar harnesses",
    C13="longer histories, more files, weights that overflow or are not finite; rounding of the mean is allowed for by a tolerance",
    C14="longer histories, more files, the learned cache's learned values",
    C15="longer histories, more files, damaged dumps, the misses-after-delete counter, the clock of the last purge, the random source and the pending choices of the agents (not part of a dump)",
    C16="longer histories, more files; lookups without a request are counted like those of requests",
    C17="more than the stated number of bounds or values, feature maps that are no valid JSON (they end the program)",
    C18="larger tables, features without values",
    C19="NaN or infinite values, more actions than the roles have; real arithmetic with a tolerance of 1e-6 stands for float64",
    C20="longer histories, more files, changes of a file's size while it is in a category",
    C21="longer histories, more files, learned values (any decision of the agents is followed instead of the one they would learn), the order within a category",
    C22="longer inputs, more than a week, profiling runs (they return before the statistics), the live percent output; square roots of the deviations are compared coarsely",
    C23="integers beyond 2^53; site and file type names other than the documented ones and arbitrary others",
    C24="files that are not csv, inputs without a documented column, records of more columns; quoted cells beyond the model of csv.Reader; permutations of the columns beyond rotations, swaps and moves (quick)",
    C25="sums of more requests, efficiencies beyond 0..100",
    C26="longer histories, more files, a log file that cannot be written, buffers beyond the stated number of lines, more than two preemptions",
    P31="longer histories, more files, files whose size changes, float rounding of sums (sizes are multiples of 1/4)",
    P32="longer histories, more files, the plots of the evaluation",
    P33="longer files, more accesses, damaged files; avro is read through a stand-in of fastavro that keeps its interface",
    P34="longer histories, a disk that is full; avro files (P47)",
    P47="fastavro itself (a stand-in encodes as the Avro 1.8 specification says, without compression), schemes given by the user, records of different fields, unions, empty lists and maps, lists of different types",
    P35="windows of more days",
    P36="more records and processes, processes that die, a Spark that loses tasks; processes, queues and Spark are stand-ins whose timing is chosen by the solver",
    P37="more requests, file names of other shapes than the eight used, rounding of sums of CPU times (multiples of 1/4)",
    P38="longer windows, more records, errors of the servers (HTTPFS itself: P46); servers and Spark are stand-ins",
    P39="more words and rows, reduced tables (reduction levels of one and more), folds with more parts than records",
    P40="more columns and rows, float labels; pandas is the list-based stand-in of pysym/frames.py",
    P41="longer logs, more simulations, the layout of the plots; pandas and plotly are stand-ins",
    P42="longer histories, converters stopped while a file is being written; pandas is a stand-in",
    P43="more simulations and days, measures that are not finite, days without read data; pandas is a stand-in",
    P44="more files and rows, other formats than csv (plain or gz); pandas is a stand-in",
    P45="more requests and days, days without requests in the list of days, the layout of the plots; pandas and plotly are stand-ins",
    P46="more records, answers that are no JSON, connections that end in the middle; the servers are stand-ins at the level of requests",
    P48="longer histories, equal weights, the cost function with times, weights that are forgotten (reset_weights) and the replay of the windows around the caches",
    P49="values sent out of order, the layout of the plots, the plot of the information of a window around its bins, the table diff_compare; Flask and bokeh are stand-ins",
    P50="longer days and windows (the buffer is flushed at 42000 records), records without times, exit codes that are numbers, the plots; pandas, redis and the object store are stand-ins, SQLite is the real one",
    Q34="longer histories, more files, files larger than the cache (they make the insertion loop)",
    Q35="larger tables, more than 63 places in a state, main's loop over random files; real arithmetic with a tolerance stands for float64")
for k, t in OUT.items():
    CHECKS[k]["outside"] = t
LIBS = ("library models of the engine: csv.Reader, bufio, gzip, json, zap, viper, time and math/rand answer as documented (the random source with any value of its range); "
        "sampled paths are run natively and compared")
PYLIBS = ("third-party modules that are not installed (tqdm, yaspin, requests, pandas, plotly, fastavro, pyspark) are stand-ins of pysym/ that keep the documented interface; "
          "sampled paths are run natively and compared")
for k, c in CHECKS.items():
    if not c["assumptions"]:
        c["assumptions"] = [PYLIBS if k[0] == "P" else LIBS]
NA["N90"] = "the plugin cannot be built offline: it imports packages by relative path (refused in module mode), and grpc and protobuf are not in the module cache for it; upstream marks its service FIXME"
NA["N91"] = "the admission by a model is commented out in cache/aiNN.go at this commit (the policy runs as LRU), so no code decides it; the layers of a model (exp, matrix products in assembly) are outside the reach of the encoding"
NA["N92"] = "collision freedom of a hash function over all strings is not decidable by SMT for a cryptographic-style mixing function; the only instance that could be encoded is one fixed string, which the existing test covers"
for h in CHECKS["C13"]["harnesses"]:
    h["conf"].setdefault("clear", 0)

NOTES = "See DESIGN.md. Engine: engine/ (symbolic executor over go/ssa), harnesses: harness/, specification of the checks: tools/checks.py."
