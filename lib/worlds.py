"""The worlds (schemas, values, options) executions are generated in."""
from .core import World

# environments and resources under which the observable behaviour must be the same; a few only, because each
# needs driver processes of its own
ENVS = [
    ({}, {}, {}),
    ({"FDB_LOAD_INDEX_THREADS": "4"}, {}, {"preloadTocBTree": False}),
    ({"FDB_CACHE_TOCS_ON_READ": "0"}, {"fdbMaxOpenDatabases": 1}, {}),
    ({"FDB_SERIALISATION_VERSION": "1"}, {"fdbRoundTocRecords": 4096}, {"preloadTocBTree": False}),
    ({"FDB_SERIALISATION_VERSION": "2", "FDB_LOAD_INDEX_THREADS": "3", "FDB_CACHE_TOCS_ON_READ": "0"}, {"fdbBufferSize": 4096}, {}),
    ({"FDB_ASYNC_WRITE": "1"}, {"fdbSizeAsyncBuffer": 8192}, {}),
    ({}, {"fdbBufferSize": 4096}, {}),
]

def options(rng, plain=0.4):
    if rng.random() < plain:
        return {}
    e, r, u = rng.choice(ENVS)
    return {"env": e, "res": r, "user": u}

VALS = [["a", "b"], ["od", "rd", "ra"], ["1", "10", "100"], ["0", "00", "000"], ["x", "y"], ["s-1", "s_1", "s.1"],
        ["p", "pq", "q"], ["20200101", "20200102"], ["2t", "10u", "10v", "msl"], ["e", "ef", "efg", "f"]]

def small(rng, sub=None, maxdb=None, **kw):
    """the standard little schema"""
    o = options(rng)
    o.update(kw)
    return World({"class": ["od", "rd"], "expver": ["a", "b"]}, {"stream": ["s1", "s2"]}, {"step": ["1", "2", "3"], "param": ["p", "q"]},
                 sub=rng.choice([0, 0, 0, 0.5, 1]) if sub is None else sub, maxdb=rng.choice([64, 64, 2, 1]) if maxdb is None else maxdb, **o)

def varied(rng, sub=None, maxdb=None, **kw):
    """a random three-level schema of untyped keywords with awkward values"""
    o = options(rng)
    o.update(kw)
    names = ["ka", "kb", "kc", "kd", "ke", "kf", "kg"]
    rng.shuffle(names)
    nd, ni, nt = rng.choice([(1, 1, 1), (2, 1, 2), (1, 2, 2), (3, 2, 2), (2, 2, 1), (1, 1, 3), (2, 3, 2)])
    def lev(n):
        return {names.pop(): list(rng.choice(VALS)) for _ in range(n)}
    return World(lev(nd), lev(ni), lev(nt), sub=rng.choice([0, 0, 0, 0.5, 1]) if sub is None else sub,
                 maxdb=rng.choice([64, 64, 3, 2, 1]) if maxdb is None else maxdb, **o)

def wide(rng, sub=None, **kw):
    """many values at the datum level: index trees with several pages"""
    o = options(rng)
    o.update(kw)
    return World({"class": ["od"], "expver": ["a", "b"]}, {"stream": ["s1", "s2"]},
                 {"step": [str(i) for i in range(0, 60)], "levelist": [str(1000 + i) for i in range(20)]},
                 sub=rng.choice([0, 0, 1]) if sub is None else sub, **o)

def manydb(rng, sub=None, **kw):
    o = options(rng)
    o.update(kw)
    return World({"class": ["od", "rd", "ra"], "expver": ["a", "b", "c", "d"]}, {"stream": ["s1", "s2", "s3"], "levtype": ["pl", "sfc"]},
                 {"param": ["p", "q"]}, sub=rng.choice([0, 0, 1]) if sub is None else sub, maxdb=rng.choice([1, 2, 3, 4, 64]), **o)

def grib(rng, sub=None, maxdb=None, roots=1, **kw):
    """fields that are GRIB messages, addressed by the keywords found in them"""
    o = options(rng)
    o.update(kw)
    return World({"class": ["od", "rd"], "expver": ["0001", "0002"]},
                 {"stream": ["oper"], "type": ["an", "fc"], "levtype": ["sfc"], "domain": ["g"], "date": ["20200101"], "time": ["0000"]},
                 {"step": ["0", "6", "12"], "param": ["130", "167"]}, roots=roots, sub=rng.choice([0, 0, 0, 0.5, 1]) if sub is None else sub,
                 maxdb=rng.choice([64, 64, 1]) if maxdb is None else maxdb, grib=True, **o)
