"""C07: get_topo_grid against the cells of the file."""
import math
import os

ASSUMPTIONS = ["a region is at most 4320 twelfths of a degree wide after rounding outwards to the nodes",
               "bathymetry files are synthetic (a different value in nearly every cell); the real tbase.int is not available",
               "large regions are compared at their corners, edges and random nodes, small ones at every node"]
EXPECT = ["across Greenwich from the west", "across Greenwich from the east", "full turn", "north pole", "south pole"]


def run(case, box):
    import random
    import numpy as np
    from pyowc.data.fetchers import get_topo_grid
    i = case["in"]
    cfg = {"CONFIG_DIRECTORY": os.path.join(os.path.dirname(os.environ["OWC_TBASE"]), "topo%d" % i["file"])}
    z, lo, la = get_topo_grid(i["minlong"], i["maxlong"], i["minlat"], i["maxlat"], cfg)
    z, lo, la = np.asarray(z), np.asarray(lo), np.asarray(la)
    shape = {"topo": list(z.shape), "longs": list(lo.shape), "lats": list(la.shape)}
    if not (z.shape == lo.shape == la.shape and z.ndim == 2):
        return {"shape": shape, "nodes": []}
    nr, nc = z.shape
    if nr * nc <= 400:
        nodes = [(a, b) for a in range(nr) for b in range(nc)]
    else:
        r = random.Random(i["pick"])
        rows = {0, nr - 1, nr // 2} | {r.randrange(nr) for _ in range(4)}
        cols = {0, 1 % nc, nc - 1, nc - 2 if nc > 1 else 0} | {r.randrange(nc) for _ in range(12)}
        # the columns around every seam of the file
        w = math.floor(i["minlong"] * 12)
        for seam in (-4320, 0, 4320):
            cols |= {x for x in (seam - w - 1, seam - w, seam - w + 1) if 0 <= x < nc}
        nodes = [(a, b) for a in sorted(rows) for b in sorted(cols)]
    return {"shape": shape, "nodes": [[a, b, float(z[a, b]), float(lo[a, b]), float(la[a, b])] for a, b in nodes]}


def files(r):
    import numpy as np
    rows, cols = np.arange(2160).reshape(-1, 1), np.arange(4320).reshape(1, -1)
    for s in range(2):
        d = os.path.join(r.scratch, "topo%d" % s)
        os.makedirs(d)
        (((rows * 7919 + cols * 104729 + s * 1299709) % 60013) - 30006).astype("<i2").tofile(os.path.join(d, "tbase.int"))


def check(r, replay):
    from runner import standard
    files(r)
    rng = r.rng
    reg = []
    # every kind of longitude range against every kind of latitude range, off and on the nodes
    longs = [(-3.3, 4.7), (0, 5), (-5, 0), (355.2, 364.9), (350, 360), (359.99, 360.01), (-180, -175.4), (175, 185),
             (179.95, 180.05), (-12.5, -3.1), (0, 360), (-180, 180), (-0.04, 0.04), (-200, -170), (365, 370), (100.02, 100.03),
             (10, 10), (359.92, 359.99), (359.9166, 359.9167), (340, 380), (-20, 340), (3.5, 363.5), (-1 / 12, 0), (0, 1 / 12),
             (359.5, 360), (-360, -355)]
    lats = [(-3.3, 4.7), (87.1, 90), (89.95, 90), (88, 93), (-90, -87.3), (-92, -88), (-89.99, -89.95), (45, 45), (12.01, 12.02),
            (-60.5, -59), (-95, -89.5), (89, 95), (89.5, 90.4), (-90.5, -89.3), (-90.04, 90.04)]
    for a in longs:
        for b in (lats if a[1] - a[0] < 30 else lats[2:9] + lats[-3:-1]):
            reg.append(a + b)
    for _ in range(r.pick(60, 1500)):
        base = rng.choice([0, 0, -180])
        w = rng.uniform(base, base + 360)
        wide = rng.choice([0.01, 0.5, 3, 20, 60])
        s = rng.uniform(-91, 89.5)
        reg.append((w, w + rng.uniform(0, wide), s, min(92, s + rng.uniform(0, 3 if wide > 3 else 20))))
    cases = [{"kind": "region", "in": {"minlong": float(a), "maxlong": float(b), "minlat": float(c), "maxlat": float(d),
                                       "file": i % 2, "pick": rng.randrange(10 ** 6)}}
             for i, (a, b, c, d) in enumerate(reg)]

    def controls(c):
        if c["k"] % 41 or not c["out"].get("nodes"):
            return
        n = c["out"]["nodes"]
        yield "value", dict(c["out"], nodes=n[:-1] + [n[-1][:2] + [n[-1][2] + 1] + n[-1][3:]])
        yield "shift", dict(c["out"], nodes=[[x[0], x[1], x[2], x[3] + 1 / 12, x[4]] for x in n])
    return standard(r, "c07", "T_C07", cases, controls, replay=replay)
