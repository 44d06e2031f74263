"""C05: get_region_hist_locations and get_region_data against Climatology."""
ASSUMPTIONS = ["an error saying that nothing was found stands for an empty answer when there is nothing to find",
               "files are either whole, absent, or not readable as .mat files"]
EXPECT = ["no cast at all", "no cast wanted or left", "casts without levels dropped", "empty box row", "absent", "damaged", "disabled type",
          "single cast in a file", "transposed bottle file", "casts of the float itself", "uneven casts", "positions out of order"]
KINDS = ("ctd", "bot", "argo")
NAN = float("nan")


def number(d):
    """Calendar date as the number stored in the files."""
    return float("%04d%02d%02d%02d%02d%02d" % (d[0], d[1], d[2], d[3], d[4], 0))


def source_text(owner, k):
    return [owner, "argo_%s" % owner, "%s_%03d.nc" % (owner, k), " %s" % owner, "R%s_001" % owner][k % 5]


def write_file(world, kind, box, f):
    """Writes (or removes, or damages) one climatology file; f as in Climatology.tla."""
    import os
    import numpy as np
    from scipy.io import savemat, loadmat
    casts = None if f["state"] == "absent" else [
        {"lat": c["lat"], "long": c["long"], "date": number(c["date"]), "pres": c["pres"], "sal": c["sal"], "ptmp": c["ptmp"],
         "source": source_text(c["owner"], i) if kind == "argo" else "cruise%d" % i} for i, c in enumerate(f["casts"])]
    path = world.write_clim(kind, box, casts)
    if f["state"] == "ok" and f.get("transposed"):
        m = {k: v for k, v in loadmat(path).items() if not k.startswith("__")}
        for k in ("pres", "sal", "ptmp", "temp"):
            m[k] = m[k].T
        savemat(path, m)
    if f["state"] == "damaged":
        with open(path, "wb") as o:
            o.write(b"this is not a mat file" * 50)
    if f["state"] == "truncated":
        os.truncate(path, os.path.getsize(path) // 2)
    return path


def run(case, box):
    import os
    import numpy as np
    from world import World, stored
    from pyowc.data.fetchers import get_region_hist_locations, get_region_data
    q = case["in"]
    w = World(os.path.join(box, "w%s" % case["k"]), names=q.get("names"))
    rows = np.full((len(q["boxes"]), 4), np.nan)
    for b, x in enumerate(q["boxes"]):
        if not x["missing"]:
            rows[b] = [1000 + b] + x["flags"]
            for t, kind in enumerate(KINDS):
                write_file(w, kind, 1000 + b, x["files"][t])
    cfg = w.config(MAP_P_DELTA=q["delta"])
    index = np.array(q["index"], dtype=int)
    pres = stored(np.array(q["pres"]))
    before = rows.copy(), index.copy(), pres.copy(), dict(cfg)
    out = {}
    try:
        lat, long, date = get_region_hist_locations(rows, q["name"], cfg)
        out["locations"] = {"lat": lat, "long": long, "date": date}
    except ValueError as e:
        if "found no data" not in str(e):
            raise
        out["locations"] = {"lat": "none"}
    try:
        g = get_region_data(rows, q["name"], cfg, index, pres)
        out["data"] = {"lat": g["grid_lat"], "long": g["grid_long"], "date": g["grid_dates"], "pres": g["grid_pres"],
                       "sal": g["grid_sal"], "ptmp": g["grid_ptmp"]}
    except RuntimeError as e:
        if "NO DATA" not in str(e):
            raise
        out["data"] = {"lat": "none"}
    out["unchanged"] = bool(np.array_equal(before[0], rows, equal_nan=True) and (before[1] == index).all()
                            and np.array_equal(before[2], pres, equal_nan=True) and before[3] == dict(cfg))
    return out


def levels(rng, n, gap, whole=False):
    c = {"pres": sorted(float(v) for v in rng.sample(range(2, 2000), n)) if whole else sorted(round(rng.uniform(2, 2000), 1) for _ in range(n)),
         "sal": [round(rng.uniform(33, 36), 4) for _ in range(n)], "ptmp": [round(rng.uniform(1, 20), 4) for _ in range(n)]}
    for i in range(n):
        if rng.random() < gap:
            c[rng.choice(["pres", "sal", "ptmp"])][i] = NAN
    return c


def a_cast(rng, long0, names, gap=None, whole=0):
    n = whole or rng.choice([1, 2, 3, 5, 8])
    c = levels(rng, n, 0 if whole else rng.choice([0, 0, .2, .6]) if gap is None else gap, whole)
    r = rng.random() if not whole or rng.random() < .1 else 1
    if r < .06:
        c = {k: [NAN] * n for k in c}
    elif r < .1:
        c["sal"] = [NAN] * n
    elif r < .16:
        c["pres"] = [x + 5000 for x in c["pres"]]              # deeper than any float
    lo = long0 + rng.uniform(-25, 25)
    digits = 0 if whole else 3
    c.update(lat=round(rng.uniform(-60, 60), digits), long=round(lo if rng.random() < .3 else lo % 360, digits), owner=rng.choice(names),
             date=[rng.randint(1970, 2020), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59)])
    if rng.random() < .04:
        c["date"][1] = rng.choice([0, 13])
    return c


NAMES = ["3901960", "390196", "13901960", "39019601", "5900001", "901960"]


def a_region(rng, nbox, long0=None):
    long0 = rng.choice([5, 100, 200, 350]) if long0 is None else long0
    boxes = []
    for _ in range(nbox):
        files = []
        for t in range(3):
            state = rng.choice(["ok"] * 5 + ["absent", "absent", "damaged", "truncated"])
            whole = rng.choice([1, 2, 4, 8]) if rng.random() < .25 else 0       # whole numbers are stored as integers
            casts = [a_cast(rng, long0, NAMES, whole=whole) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
            depth = max(len(c["pres"]) for c in casts)
            files.append({"state": state, "casts": casts,
                          "transposed": t == 1 and len(casts) > 1 and depth > 1 and depth != len(casts) and rng.random() < .4})
        boxes.append({"missing": rng.random() < .1, "flags": [1 if rng.random() < .8 else 0 for _ in range(3)], "files": files})
    return boxes


def listed(boxes, name):
    """How many casts the listing has (only used to make positions)."""
    n = 0
    for b in boxes:
        for t, f in enumerate(b["files"]):
            if not b["missing"] and b["flags"][t] == 1 and f["state"] == "ok":
                n += sum(1 for c in f["casts"] if t != 2 or c["owner"] != name)
    return n


def check(r, replay):
    from runner import standard
    from world import layout
    rng = r.rng
    r.tbase()
    cases = []
    for i in range(r.pick(160, 2500)):
        boxes = a_region(rng, rng.choice([1, 1, 2, 3, 5]))
        name = rng.choice(NAMES)
        if i % 17 == 0:
            for b in boxes:
                b["flags"] = [0, 0, 1]
                b["files"][2]["casts"] = [dict(c, owner=name) for c in b["files"][2]["casts"]]
        if i % 23 == 0:                       # casts before the others lose all their levels
            for b in boxes[:1]:
                for f in b["files"]:
                    f["casts"][0] = dict(f["casts"][0], sal=[NAN] * len(f["casts"][0]["sal"]))
        n = listed(boxes, name)
        k = 0 if i % 20 == 5 else rng.choice([n, rng.randint(min(n, 1), n), rng.randint(min(n, 1), n)])
        index = rng.sample(range(n), k)
        if rng.random() < .5:
            index.sort()
        pres = [round(x, rng.choice([0, 1])) for x in (rng.uniform(5, rng.choice([50, 1000, 2000, 2000, 2000])) for _ in range(5))]
        if rng.random() < .4:
            pres[rng.randrange(5)] = NAN
        delta = rng.choice([0, 50, 250, 2000])
        if rng.random() < .2 and n:           # the deepest pressure exactly on a level
            c = [c for b in boxes for f in b["files"] for c in f["casts"] if c["pres"][0] == c["pres"][0]]
            if c:
                pres, delta = [float(int(rng.choice(c)["pres"][0])), NAN], 0
                c = rng.choice(c)
                c["pres"][0] = pres[0]
        cases.append({"kind": "region", "in": {"names": layout(rng), "boxes": boxes, "name": name, "index": index, "pres": pres, "delta": delta}})

    def controls(c):
        o = c["out"]
        if c["k"] % 9 or "error" in o or o["data"]["lat"] == "none" or not o["data"]["lat"]:
            return
        d = o["data"]
        yield "latitude", dict(o, data=dict(d, lat=d["lat"][1:] + [77.0]))
        yield "level", dict(o, data=dict(d, sal=[[x + 1 for x in row] for row in d["sal"]]))
        yield "list", dict(o, locations=dict(o["locations"], lat=o["locations"]["lat"][::-1] + [1.0]))
    return standard(r, "c05", "T_C05", cases, controls, replay=replay)
