"""C06: find_25boxes against Geo!Block."""
import json
import os
import random

ASSUMPTIONS = ["longitudes lie in 0..360 and latitudes in -90..90; a position less than 0.01 degrees before a box "
               "boundary may be taken to be in the next box"]
EXPECT = ["north pole", "south pole", "wraps in longitude", "at a boundary", "missing position"]


def tables(seed):
    r = random.Random("tables%s" % seed)
    t0 = [[i + 1, 1, 1, 1] for i in range(648)]
    nums = r.sample(range(1000, 9000), 648)
    t1 = [[nums[i], r.randint(0, 1), r.randint(0, 1), r.randint(0, 1)] for i in range(648)]
    return [t0, t1]


def run(case, box):
    import numpy as np
    from pyowc.core.finders import find_25boxes
    from world import stored
    t = tables(case["in"]["seed"])[case["in"]["table"]]
    tab = np.array(t, dtype=np.uint16 if case["in"]["table"] else float)
    before = tab.copy()
    kind = {"float": float, "double": np.float64, "stored": lambda v: stored(np.array([[float(v)]]))[0, 0]}[case["in"]["form"]]
    rows = find_25boxes(kind(case["in"]["long"]), kind(case["in"]["lat"]), {"la_wmo_boxes": tab})
    assert (tab == before).all()
    return {"rows": rows}


def check(r, replay):
    from runner import standard
    seed = r.seed if not replay else replay["case"]["in"]["seed"]
    params = {}
    for i, t in enumerate(tables(seed)):
        p = os.path.join(r.scratch, "table%d.json" % i)
        with open(p, "w") as f:
            json.dump(t, f)
        params["table%d" % i] = p
    nan = float("nan")
    pos = []
    # every row of boxes with the columns next to and away from the seam, inside, on and next to boundaries
    for row in range(18):
        for col in ([0, 1, 2, 17, 18, 33, 34, 35] if r.quick else range(36)):
            la, lo = -90 + 10 * row, 10 * col
            pos.append((la + r.rng.uniform(.1, 9.9), lo + r.rng.uniform(.1, 9.9)))
            pos.append((la + r.rng.choice([0, 0.001, 5, 9.98, 9.992, 10]), lo + r.rng.choice([0, .001, 5, 9.98, 9.992, 10])))
    pos += [(a, b) for a in (-90, -89.999, -80, -70, 0, 69.99, 70, 79.99, 80, 89.985, 89.99, 89.999, 90, 89.98, 79.98, 69.98)
            for b in (0, 1e-9, 5, 9.99, 10, 19.98, 19.99, 20, 180, 339.99, 340, 350, 349.99, 355, 359.985, 359.99, 359.999, 360)]
    for _ in range(r.pick(300, 6000)):
        pos.append((r.rng.uniform(-90, 90), r.rng.uniform(0, 360)))
    for _ in range(r.pick(60, 600)):
        pos.append((r.rng.randint(-90, 90), r.rng.choice([r.rng.randint(0, 360), r.rng.randint(0, 20), r.rng.randint(340, 360)])))
    pos += [(nan, 10), (10, nan), (nan, nan), (85.0, nan), (nan, 359.5)]
    cases = [{"kind": "position", "in": {"lat": float(a), "long": float(b), "table": i % 2, "seed": seed, "form": ("float", "double", "stored")[i % 3]}}
             for i, (a, b) in enumerate(pos)]

    def controls(c):
        if c["k"] % 97 or "rows" not in c["out"]:
            return
        rows = c["out"]["rows"]
        yield "swap", {"rows": rows[:-1] + [rows[0]]}
        yield "drop", {"rows": rows[:-1] + [[nan] * 4]} if rows[-1][0] == rows[-1][0] else {"rows": rows[1:]}

    if replay:
        cases = [dict(replay["case"])]
    r.drive("c06", cases)
    extra = []
    if not replay:
        for c in cases:
            for tag, out in controls(c) or []:
                extra.append(dict(c, out=out, k="control %d %s" % (c["k"], tag)))
    v = r.judge("T_C06", cases + extra, params=params)
    return cases, v, extra
