"""P31: the LRU cache of the Python simulator."""
from SmartCache.pySim.cache import LRU

NAMES = ["/store/a", "/store/b", "/store/c", "/store/d"]


def lru(v):
    names = NAMES[:v.conf("names")]
    cap = v.num("max", 0, 4000) if v.conf("max") == 0 else float(v.conf("max"))
    cache = LRU(cap)
    sizes = [v.num("size", 0, 8000) for _ in names]
    resident = []            # least recently used first: (name, size)
    hits = misses = 0
    written = deleted = read = 0.0
    counts = {n: [0, 0] for n in names}
    top = -1
    for step in range(v.conf("requests")):
        f = v.choice("file", min(len(names), top + 2))   # names are taken in order: renaming gives the same history
        top = max(top, f)
        name, size = names[f], sizes[f]
        hit = any(n == name for n, _ in resident)
        v.check(cache.check(name) == hit, "a request hits exactly when the file is resident")
        cache.get(name, size)
        read = read + size
        counts[name][0 if hit else 1] += 1
        if hit:
            hits += 1
            resident = [x for x in resident if x[0] != name] + [(name, size)]
            v.cover("hit")
        else:
            misses += 1
            if size <= cap:
                used = sum((s for _, s in resident), 0.0)
                while used + size > cap:
                    v.cover("eviction")
                    gone = resident.pop(0)
                    used = used - gone[1]
                    deleted = deleted + gone[1]
                resident.append((name, size))
                written = written + size
            else:
                v.cover("larger than the cache")
        used = sum((s for _, s in resident), 0.0)
        for n in names:
            v.check(cache.check(n) == any(m == n for m, _ in resident), "files are evicted least recently used first")
        v.check(cache._size == used, "the occupied space is the sum of the sizes of the resident files")
        v.check(cache._size <= cap, "the occupied space is never larger than the cache")
    for n, z in zip(names, sizes):
        if sum(counts[n]):
            f = cache._stats.get_or_set(n, z)
            v.check(f.hit == counts[n][0] and f.miss == counts[n][1] and f.tot_requests == sum(counts[n]), "the requests of each file")
            v.check(f.size == z, "the size of each file")
    v.check(cache._hit == hits, "hits")
    v.check(cache._miss == misses, "misses")
    v.check(cache._written_data == written, "written data")
    v.check(cache._deleted_data == deleted, "deleted data")
    v.check(cache._read_data == read, "read data")
    rate = hits / float(hits + misses) if hits else 0.0
    v.check(v.near(cache.hit_rate(), rate), "hit rate")
    v.observe("hits", hits)
    v.observe("resident", [n for n, _ in resident])
    v.observe("size", cache._size)

