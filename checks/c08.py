"""C08: find_besthist against Selection."""
import math

ASSUMPTIONS = ["which casts are drawn at random is not prescribed: a selection is accepted when some draw of up to a third explains it, "
               "and over many selections the drawn casts must come from every quarter of the list",
               "casts within 1e-9 of the edge of the ellipse are not judged; depths are not zero"]
EXPECT = ["chosen among many", "all casts inside taken", "with vorticity", "without vorticity", "exactly as many as allowed", "small maximum"]


def call(q):
    import numpy as np
    from pyowc.core.finders import find_besthist
    from world import stored
    one = (lambda v: stored(np.array([[v]]))[0, 0]) if q.get("stored") else float
    a = lambda x: np.array(x, dtype=float) if q.get("flat", True) else np.array(x, dtype=float).reshape(-1, 1)
    r = find_besthist(a(q["lat"]), a(q["long"]), a(q["date"]), a(q["z"]), one(q["plat"]), one(q["plong"]), one(q["pdate"]), q["pz"],
                      q["lat_large"], q["lat_small"], q["long_large"], q["long_small"], q["phi_large"], q["phi_small"],
                      q["age_large"], q["age_small"], q["pv"], q["max"])
    return [int(x) for x in np.asarray(r).flatten()]


def run(case, box):
    import numpy as np
    if case["kind"] == "spread":
        return {"index": [call(q) for q in case["in"]["calls"]]}
    np.random.seed(1)
    first = call(case["in"])
    np.random.seed(77)
    np.random.rand(5)
    return {"index": first, "again": [call(case["in"]), call(case["in"])]}


def query(rng, n, m, pv, spread=1.0, dup=0, tight_dates=False, equal_small=False):
    plat, plong, pdate, pz = rng.uniform(-60, 60), rng.uniform(20, 340), rng.uniform(2000, 2015), rng.uniform(1500, 5000)
    whole = rng.random() < .2
    if whole:
        plat, plong, pdate = float(round(plat)), float(round(plong)), float(round(pdate))
    la, lo = rng.uniform(2, 8), rng.uniform(2, 10)
    q = {"stored": whole, "plat": plat, "plong": plong, "pdate": pdate, "pz": pz, "lat_large": la, "long_large": lo,
         "lat_small": la * rng.uniform(.2, .7), "long_small": lo * rng.uniform(.2, .7),
         "phi_large": rng.choice([.5, 1.0, .2]), "phi_small": rng.choice([.1, .3]), "age_large": rng.uniform(3, 20),
         "age_small": rng.uniform(.5, 5), "pv": pv, "max": m}
    lat, long, date, z = [], [], [], []
    for _ in range(n):
        if lat and rng.random() < dup:
            j = rng.randrange(len(lat))
            a, b, c, d = lat[j], long[j], date[j], z[j]
            if rng.random() < .5:
                c = rng.uniform(1990, 2020)
        else:
            a = plat + rng.gauss(0, la * spread)
            b = plong + rng.gauss(0, lo * spread)
            c = pdate + rng.uniform(-.5, .5) if tight_dates else rng.uniform(1985, 2020)
            d = max(200., pz * rng.uniform(.6, 1.6)) if rng.random() < .95 else rng.uniform(-800, -5)
        lat.append(a), long.append(b), date.append(c), z.append(d)
    q.update(lat=lat, long=long, date=date, z=z, flat=rng.random() < .7)
    return q


def check(r, replay):
    from runner import standard
    rng = r.rng
    cases = []
    for m in list(range(1, 14)) + [15, 20, 30, 45, 60]:
        for pv in (0, 1):
            for n in {m + 1, m + 2, 2 * m + 3, 4 * m + 10}:
                cases.append({"kind": "choose", "in": query(rng, n, m, pv, spread=rng.choice([.6, 1, 1.3]), dup=rng.choice([0, 0, .2]))})
    for _ in range(r.pick(60, 1500)):
        m = rng.randint(2, 70)
        n = rng.randint(1, 160)
        cases.append({"kind": "choose", "in": query(rng, n, m, rng.randint(0, 1), spread=rng.choice([.3, .8, 1.5, 3]),
                                                    dup=rng.choice([0, 0, .3]), tight_dates=rng.random() < .2)})
    # as many inside as allowed
    for pv in (0, 0, 1, 1):
        n = rng.randint(5, 30)
        cases.append({"kind": "exact", "in": query(rng, n, n, 0, spread=.3)})
    # exactly on the edge
    for k in range(8):
        q = query(rng, 12, rng.choice([4, 30]), 0, spread=.4)
        q.update(plong=100.0, plat=10.0, lat_large=2.0, long_large=4.0)
        q["lat"] = [10 + rng.uniform(-3, 3) for _ in q["lat"]]
        q["long"] = [100 + rng.uniform(-6, 6) for _ in q["lat"]]
        q["lat"][k], q["long"][k] = (10.0, 112.0) if k % 2 else (16.0, 100.0)
        cases.append({"kind": "edge", "in": q})
    # nothing inside
    for pv in (0, 1):
        q = query(rng, 8, 5, pv, spread=.4)
        q["lat"] = [x + (60 if q["plat"] < 0 else -60) for x in q["lat"]]
        cases.append({"kind": "outside", "in": q})
    calls = []
    for i in range(12):
        q = query(rng, 100 + i, 36, 0, spread=.9)
        q["flat"] = True
        calls.append(q)
    cases.append({"kind": "spread", "in": {"calls": calls}})

    def controls(c):
        ix = c["out"].get("index")
        if c["k"] % 7 or not ix or c["kind"] != "choose":
            return
        q = c["in"]
        yield "twice", dict(c["out"], index=ix[:-1] + [ix[0]]) if len(ix) > 1 else dict(c["out"], index=ix + ix)
        yield "fewer", dict(c["out"], index=ix[:-1], again=[])
        if len(ix) == q["max"] >= 12:
            # the first ones of the list instead of the closest ones
            yield "plain", {"index": list(range(q["max"])), "again": []}
    return standard(r, "c08", "T_C08", cases, controls, replay=replay)
