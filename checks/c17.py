"""C17: dates, longitudes, vorticity, correlation and ellipse."""
ASSUMPTIONS = ["dates with 29-31 February and the like, hours above 23 and minutes above 59 are left unspecified (the code accepts some)",
               "equality within 1e-12 (1e-13 for dates)"]
EXPECT = ["valid date", "not a date", "shifted by 360", "not shifted", "zero vorticity", "ellipse with vorticity"]


def run(case, box):
    import numpy as np
    from pyowc import utilities as u
    from world import stored
    from pyowc.core.finders import find_ellipse
    i = case["in"]
    k = case["kind"]
    if k == "dates":
        raw = i["raw"]
        if i["form"] == "float":
            raw = np.array([float(x) for x in raw])
        elif i["form"] == "int":
            raw = np.array([int(x) for x in raw])
        elif i["form"] == "intlist":
            raw = [int(x) for x in raw]
        elif i["form"] == "str":
            raw = [str(x) for x in raw]
        return {"v": np.asarray(u.change_dates(raw)).flatten()}
    if k == "longs":
        a = np.array(i["v"], dtype=i["dtype"])
        return {"v": np.asarray(u.wrap_longitude(a)).flatten()}
    if k == "pv":
        f = float if i["py"] else np.float64
        if i["stored"]:
            g = lambda v: stored(np.array([[float(v)]]))[0, 0]
            return {"v": float(u.potential_vorticity(g(i["lat"]), f(i["z"])))}
        return {"v": float(u.potential_vorticity(f(i["lat"]), f(i["z"])))}
    if k == "corr":
        a = (i["long1"], i["long2"], i["llong"], i["lat1"], i["lat2"], i["llat"], i["date1"], i["date2"], i["age"], i["phi"])
        if i["pv1"] == 0 and i["pv2"] == 0 and i["short"]:
            return {"v": float(u.spatial_correlation(*a))}
        return {"v": float(u.spatial_correlation(*a, i["pv1"], i["pv2"]))}
    a = (i["long1"], i["long2"], i["llong"], i["lat1"], i["lat2"], i["llat"], i["phi"])
    if i["pv1"] == 0 and i["pv2"] == 0 and i["short"]:
        return {"v": float(find_ellipse(*a))}
    return {"v": float(find_ellipse(*a, i["pv1"], i["pv2"]))}


def check(r, replay):
    from runner import standard
    rng = r.rng
    cases = []

    def date(bad=False):
        y, m, d = rng.randint(1950, 2049), rng.randint(1, 12), rng.randint(1, 28)
        d = rng.choice([1, d, 28] + ([[31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]]))
        h, mi, s = rng.choice([0, 23, rng.randint(0, 23)]), rng.choice([0, 59, rng.randint(0, 59)]), rng.randint(0, 59)
        if bad:
            m, d = rng.choice([(0, d), (13, d), (99, d), (m, 0), (m, 32), (m, 99), (0, 0)])
        t = "%04d%02d%02d%02d%02d%02d" % (y, m, d, h, mi, s)
        n = rng.choice([8, 10, 12, 14, 14])
        return int(t[:n]), {"ok": True, "d": [y, m, d, h if n > 8 else 0, mi if n > 10 else 0]}

    # every month with its first and last day, in every form and length
    for form in ("int", "float", "intlist"):
        for n in (8, 10, 12, 14):
            raw, parts = [], []
            for m in range(1, 13):
                for d in (1, [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]):
                    h, mi = rng.randint(0, 23), rng.randint(0, 59)
                    raw.append(int(("%04d%02d%02d%02d%02d%02d" % (2000 + m, m, d, h, mi, 59))[:n]))
                    parts.append({"ok": True, "d": [2000 + m, m, d, h if n > 8 else 0, mi if n > 10 else 0]})
            cases.append({"kind": "dates", "in": {"form": form, "raw": raw, "parts": parts}})
    for _ in range(r.pick(120, 3000)):
        raw, parts = [], []
        form = rng.choice(["int", "float", "intlist", "str"])
        for _ in range(rng.randint(1, 12)):
            w = rng.random()
            if w < .6:
                a, b = date()
            elif w < .8:
                a, b = date(True)
            else:
                a, b = rng.choice([0, 1, 19, 2005, 200501]), {"ok": False, "d": [0, 0, 0, 0, 0]}
                if form == "float" and rng.random() < .3:
                    a = float("nan")
                if form == "str" and rng.random() < .5:
                    a = rng.choice(["", "unknown", "2005-01-", "abcdefgh"])
            raw.append(a)
            parts.append(b)
        if form in ("int", "intlist"):
            keep = [j for j in range(len(raw)) if isinstance(raw[j], int)]
            raw, parts = [raw[j] for j in keep], [parts[j] for j in keep]
        cases.append({"kind": "dates", "in": {"form": form, "raw": raw, "parts": parts}})
    pool = [0, 0.001, 5, 39.999, 40, 40.001, 41, 100, 180, 319.999, 320, 320.001, 359.999, 360, -0.001, -5, -39.9, -40, -40.1,
            -180, -100, -320, -359.99]
    for _ in range(r.pick(250, 5000)):
        n = rng.randint(1, 8)
        v = [rng.choice([rng.choice(pool), rng.uniform(0, 360), rng.uniform(-180, 180), rng.uniform(0, 45)]) for _ in range(n)]
        dt = "float64"
        if rng.random() < .15:
            v, dt = [int(x) for x in v], rng.choice(["int64", "float64", "int16"] + ["uint16"] * (min(v) >= 0))
        cases.append({"kind": "longs", "in": {"v": v, "dtype": dt}})
    for a in pool:
        for b in (5, 40, 41, 320, 319.9, -30):
            cases.append({"kind": "longs", "in": {"v": [float(a), float(b)], "dtype": "float64"}})
    for _ in range(r.pick(120, 2000)):
        cases.append({"kind": "pv", "in": {"stored": rng.random() < .4, "lat": rng.choice([0.0, rng.uniform(-90, 90), float(rng.randint(-90, 90)), 90.0, -90.0, 1e-6]), "py": rng.random() < .5,
                                           "z": rng.choice([rng.uniform(1, 8000), rng.uniform(-500, -1), 1.0])}})
    for k in ("corr", "ellipse"):
        for _ in range(r.pick(200, 4000)):
            pv = rng.choice([(0, 0), (0, 0), (0, 2e-8), (3e-8, 0), (rng.uniform(-5e-8, 5e-8), rng.uniform(-5e-8, 5e-8)),
                             (rng.uniform(1e-9, 5e-8), rng.uniform(1e-9, 5e-8)), (1e-5, 2e-8)])
            same = rng.random() < .1
            lo, la = rng.uniform(0, 400), rng.uniform(-90, 90)
            cases.append({"kind": k, "in": {
                "long1": lo, "long2": lo if same else lo + rng.uniform(-30, 30), "llong": rng.uniform(.5, 12), "lat1": la,
                "lat2": la if same else la + rng.uniform(-10, 10), "llat": rng.uniform(.5, 8), "date1": rng.uniform(1990, 2020),
                "date2": rng.uniform(1990, 2020), "age": rng.uniform(.5, 30), "phi": rng.choice([.1, .5, rng.uniform(.01, 2)]),
                "pv1": pv[0], "pv2": pv[1], "short": rng.random() < .5}})

    def controls(c):
        v = c["out"].get("v")
        if c["k"] % 23 or v is None:
            return
        if isinstance(v, list):
            yield "shift", {"v": [v[0] + 1e-6] + v[1:]}
            yield "short", {"v": v[1:]}
        else:
            yield "scale", {"v": v * (1 + 1e-8) + 1e-9}
    return standard(r, "c17", "T_C17", cases, controls, replay=replay)
