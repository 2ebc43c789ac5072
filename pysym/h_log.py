"""P41: the analysis of the choice log of a simulation."""
import sys
import frames
import probe.results.utils as rutils
import probe.results.data as rdata

EVENTS = ["ONFREE", "ONDAYEND", "ONK", "FORCEDCALL", "FREE"]
ACTIONS = ["KEEP", "DELETE"]
OTHERS = ["HIT", "MISS", "ADD", "SKIP", "REDIRECT"]
COLUMNS = ["tick", "action or event", "cache size", "capacity", "filename", "size", "num req", "delta t"]
rutils.pd = frames
rdata.pd = frames


def symlog(v, n, kinds, times=True, first=False):
    rows = []
    for i in range(n):
        k = kinds[0 if i == 0 and first else v.choice("row", len(kinds))]
        if k in EVENTS:
            rows.append([i, k, v.num("cache size", 0, 1000), v.num("occupancy", 0, 100), -1, -1.0, -1, -1])
        else:
            rows.append([i, k, v.num("cache size", 0, 1000), v.num("occupancy", 0, 100), v.choice("file", v.conf("names")),
                         v.num("size", 0, 1000), v.int("num req", 1, 50), v.int("delta", 0, 100000) if times else i])
    return rows, frames.DataFrame(rows, columns=COLUMNS)


def episodes(rows):
    """the rounds of deletions: event row, the choices of the round, what came until the next event"""
    res, cur, open_ = [], None, False
    for r in rows:
        if r[1] in EVENTS:
            cur, open_ = (r, [], []), True
            res.append(cur)
        elif cur is not None:
            open_ = open_ and r[1] in ACTIONS
            cur[1 if open_ else 2].append(r)
    return res


def frame_rows(df):
    return [[df._cols[c][i] for c in COLUMNS] for i in range(len(df.index))]


def deltas(v, before, after, what):
    """the largest delta is drawn as twice the one before, the others are unchanged"""
    top = None
    for x in before:
        if top is None or x > top:
            top = x
    rest = [x for x in before if not (x == top)]
    second = None
    for x in rest:
        if second is None or x > second:
            second = x
    for x, y in zip(before, after):
        v.check(y == (x if second is None or not (x == top) else second * 2), what)


def rounds(v):
    n = v.choice("rows", v.conf("rows") + 1) if not v.conf("first") else v.conf("rows")
    rows, df = symlog(v, n, EVENTS[:v.conf("events")] + ACTIONS + OTHERS[:v.conf("others")], v.conf("times"), v.conf("first"))
    want = episodes(rows)
    if v.conf("named"):
        got = list(rdata.parse_simulation_report([("base/x/simulation_results.csv", None, df)], "base/", generator=True))
        v.check(all(name == "x" for name, _ in got), "rounds carry the name of their simulation")
        got = [e for _, e in got]
    else:
        got = list(rutils.parse_sim_log(df, "AFTERDELETE"))
    v.check(len(got) == len(want), "every event row of the log opens a round")
    for g, (ev, acts, after) in zip(got, want):
        v.check(v.all([g.tick == ev[0], g.event == ev[1], g.on_delete_cache_size == ev[2], g.on_delete_cache_occupancy == ev[3]]), "a round has the values of its event row")
        ga, gt, gs = frame_rows(g.actions), frame_rows(g.after), frame_rows(g.after4scatter)
        same(v, ga, acts, "the choices of a round are the rows that follow its event")
        same(v, gt, after, "what came after a round are the rows until the next event")
        same(v, gs, [r for r in after if r[1] == "ADD"], "the files added after a round", True)
        deltas(v, [r[7] for r in acts], [r[7] for r in ga], "only the largest delta is redrawn")
        cur = [i for i, r in enumerate(after) if r[5] != -1.0]
        deltas(v, [after[i][7] for i in cur], [gt[i][7] for i in cur], "only the largest delta is redrawn")
        gone = [r for r in acts if r[1] == "DELETE"]
        names = {r[4] for r in gone}
        v.check(g.num_deleted_files == len(names), "the number of files a round deleted")
        v.check(g.total_size_deleted_files == sum(r[5] for r in gone), "the size a round deleted")
        v.check(g.total_num_req_after_delete == sum(1 for r in after if r[1] == "MISS" and r[4] in names), "the misses of files a round deleted")
        if gone and g.total_num_req_after_delete:
            v.cover("misses after a deletion")
        if len(names) < len(acts):
            v.cover("kept")
    if len(got) > 1:
        v.cover("rounds")
    if not got:
        v.cover("no round")
    v.observe("rounds", [(g.num_deleted_files, g.total_num_req_after_delete) for g in got])


def same(v, got, want, label, deltas=False):
    v.check(len(got) == len(want), label)
    k = 8 if deltas else 7
    for a, b in zip(got, want):
        v.check(v.all([x == y for x, y in zip(a[:k], b[:k])]), label)


def frequencies(v):
    """how often requested the files were that miss after their deletion, or that are not stored"""
    v.shimint(rutils)
    n = v.choice("rows", v.conf("rows") + 1)
    kinds = ["DELETE", "KEEP", "MISS", "SKIP", "FREE", "HIT"][:v.conf("kinds")]
    rows, missed = [], None
    for i in range(n):
        k = kinds[v.choice("row", len(kinds))]
        f, r = -1, -1
        if k == "SKIP":
            v.assume(missed is not None)
            f, missed = missed, None
        elif k != "FREE":
            f = v.choice("file", v.conf("names"))
        if k == "MISS":
            missed = f
        if k != "FREE":
            r = v.int("num req", 1, 50)
        rows.append([i, k, 0, 0, f, 1.0 if f >= 0 else -1.0, r, 0 if f >= 0 else -1])
    df = frames.DataFrame(rows, columns=COLUMNS)
    gone, skipped, wanted, fresh = {}, [], [], True
    for r in rows:
        if r[1] == "DELETE":
            if fresh:
                gone, fresh = {}, False
            gone[r[4]] = r[6]
        elif r[1] != "KEEP":
            fresh = True
        if r[1] == "MISS" and r[4] in gone:
            wanted.append(gone.pop(r[4]))
        if r[1] == "SKIP":
            skipped.append(r[6])
    got = list(rutils.parse_sim_log(df, "MISSFREQ"))
    v.check(len(got) == 1, "one result")
    same1(v, got[0][0], wanted, "the frequencies of the files that miss after the last deletions")
    same1(v, got[0][1], skipped, "the frequencies of the files that are not stored")
    if wanted:
        v.cover("deleted")
    if skipped:
        v.cover("skipped")
    v.observe("n", [len(got[0][0]), len(got[0][1])])


def same1(v, got, want, label):
    v.check(len(got) == len(want), label)
    v.check(v.all([x == y for x, y in zip(got, want)]), label)


FOLDERS = ["lru", "lru2", "small/lru", "s", "a/a", "a", "x/T2"]


def reports(v):
    """every simulation has its report, under a name of its own"""
    from os import path
    k = v.choice("simulations", 2) + 1
    names = []
    for _ in range(k):
        f = FOLDERS[v.choice("folder", v.conf("folders"))]
        v.assume(f not in names)
        names.append(f)
    logs = [symlog(v, v.choice("rows", v.conf("rows") + 1), EVENTS[:1] + ACTIONS[1:] + ["MISS"], False) for _ in names]
    files = [n + "/simulation_results.csv" for n in names]
    prefix = path.commonprefix(files)
    sims = [(f, None, df) for f, (_, df) in zip(files, logs)]
    whole = rdata.parse_simulation_report(sims, prefix)
    parts = list(rdata.parse_simulation_report(sims, prefix, generator=True))
    v.check(isinstance(whole, dict) and len(whole) == k, "a report per simulation")
    at = 0
    for (name, evs), (rows, _), f in zip(whole.items(), logs, files):
        want = episodes(rows)
        v.check(len(evs) == len(want), "the rounds of a simulation")
        v.check(all(e.tick == w[0][0] for e, w in zip(evs, want)), "the rounds of a simulation")
        v.check(name == f[len(prefix):].replace("/simulation_results.csv", ""), "a simulation is named by its own part of the path")
        v.check([x for x, _ in parts[at:at + len(want)]] == [name] * len(want), "the rounds one at a time are the same")
        v.check(all(e.tick == w[0][0] for (_, e), w in zip(parts[at:], want)), "the rounds one at a time are the same")
        at += len(want)
    v.check(at == len(parts), "the rounds one at a time are the same")
    if k > 1:
        v.cover("two simulations")
    v.observe("names", sorted(whole))


def bins(v):
    """a histogram has, for each class, the percentage of its values"""
    import probe.results.plotters as plotters
    n = v.choice("values", v.conf("values") + 1)
    l = [v.int("value", 1, 20) for _ in range(n)]
    edges = [[1, 2, 6], [3], [2, 5, 9, 11]][v.choice("classes", 3)]
    tot = v.int("total", 0, 50)
    v.assume(v.any([tot == 0, tot >= n]))
    counts, names = plotters._get_bins(list(l), list(edges), tot)
    v.check(names == edges + ["max"], "a bar per class")
    lo = 0
    total = n if tot == 0 else tot
    for b, c in zip(edges + [None], counts):
        inside = sum(1 for x in l if x > lo and (b is None or x <= b))
        v.check(v.near(c * total, inside * 100.0, 1e-6) if n else c == 0, "a bar is the percentage of the values of its class")
        lo = b
    if n:
        v.cover("values")
    v.observe("n", n)
