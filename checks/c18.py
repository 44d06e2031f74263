"""C18: frontal_constraint_saf against Front."""
ASSUMPTIONS = ["in-situ temperatures of the casts are those of the gsw toolbox for their salinity, potential temperature and position",
               "pressures of the float do not decrease", "a classification within 1e-9 degrees of a threshold may go either way"]
EXPECT = ["north of 30S", "float north", "float south", "float unclassed", "no cast left", "some casts left", "cast north", "cast south",
          "cast unclassed", "classed by the envelopes", "repeated pressures", "level at 300 dbar"]
NAN = float("nan")


def run(case, box):
    import os
    import copy
    import gsw
    import numpy as np
    from scipy.io import savemat
    from pyowc.data.fetchers import frontal_constraint_saf
    from world import stored
    q = case["in"]
    s = q["saf"]
    m = lambda k: np.array([s[k]], dtype=float)
    savemat(os.path.join(box, "saf.mat"), {"S_meanN": m("sn"), "T_meanN": m("tn"), "S_meanS": m("ss"), "T_meanS": m("ts"), "S_stdN": m("dsn"),
                                           "T_stdN": m("dtn"), "S_stdS": m("dss"), "T_stdS": m("dts"), "Deph": np.array([s["deph"]], dtype=np.uint16)})
    col = lambda k: np.array([c[k] for c in q["casts"]], dtype=float)
    g = {"grid_sal": col("sal").T, "grid_ptmp": col("ptmp").T, "grid_pres": col("pres").T,
         "grid_lat": col("lat"), "grid_long": col("long"), "grid_dates": col("dates"), "grid_z": col("z")}
    v = lambda k: stored(np.array(q["float"][k], dtype=float))
    f = {"float_lat": stored(np.array([[q["lat"]]]))[0, 0], "float_long": 60., "float_date": 2010.5, "float_pres": v("pres"), "float_tmp": v("tmp"),
         "float_sal": v("sal"), "float_ptmp": v("tmp")}
    sa = gsw.SA_from_SP(g["grid_sal"], g["grid_pres"], g["grid_long"], g["grid_lat"])
    tmp = gsw.t_from_CT(sa, gsw.CT_from_pt(sa, g["grid_ptmp"]), g["grid_pres"])
    g0, f0 = copy.deepcopy(g), copy.deepcopy(f)
    o = frontal_constraint_saf({"CONFIG_DIRECTORY": box, "CONFIG_SAF": "saf.mat"}, g, f)
    same = lambda a, b: all(np.array_equal(np.asarray(a[k]), np.asarray(b[k]), equal_nan=True) for k in a) and set(a) == set(b)
    r = {k: np.asarray(o["grid_" + k]).flatten() for k in ("lat", "long", "dates", "z")}
    r.update({k: np.asarray(o["grid_" + k]).T for k in ("sal", "ptmp", "pres")})
    r["tmp"] = tmp.T
    r["unchanged"] = same(g0, g) and same(f0, f)
    return r


def envelopes(rng, real):
    """The typical profiles north and south of the front: the real ones or strictly monotone made-up ones."""
    if real:
        return real
    d = [0, 50, 100, 150] + list(range(200, 2001, rng.choice([100, 150, 200])))
    n = len(d)
    x = [i / (n - 1.) for i in range(n)]
    r = lambda v: [round(t, 4) for t in v]
    e = {"deph": d}
    e["tn"] = r([8.5 - 6 * t + .4 * (1 - t) ** 3 for t in x])
    e["sn"] = r([34.1 + .5 * t for t in x])
    e["ts"] = r([3.9 - 2.2 * t for t in x])
    e["ss"] = r([33.9 + .8 * t for t in x])
    e["dtn"] = r([3.0 - rng.choice([2, 2.7]) * t for t in x])
    e["dsn"] = r([.35 - .2 * t for t in x])
    e["dts"] = r([1.2 - .4 * t for t in x])
    e["dss"] = r([.15 - .05 * t for t in x])
    return e


def cast(rng, i, target, nl):
    """A cast whose temperature at 300 dbar is about target."""
    p = sorted({round(rng.uniform(5, rng.choice([260, 900, 1900])), 1) for _ in range(nl)})
    while len(p) < nl:
        p.append(round(p[-1] + rng.uniform(1, 90), 1))
    if rng.random() < .4:
        p = sorted(set(p[:-1]) | {300.0})
        while len(p) < nl:
            p.append(round(p[-1] + rng.uniform(1, 90), 1))
    slope = rng.uniform(.0005, .004)
    t = [round(target + slope * (300 - x) * (1 if x > 300 else rng.choice([1, .5])), 5) for x in p]
    s = [round(34.2 + .0003 * x + rng.gauss(0, .02), 4) for x in p]
    how = rng.choice(["", "", "repeat", "gaps", "short", "gap repeat", "shallow"])
    if "repeat" in how:
        j = rng.randrange(nl - 1)
        p[j + 1] = p[j]
        t[j + 1] = round(t[j] + rng.uniform(-2, 2), 4)
        if how == "gap repeat" and j + 2 < nl:
            p[j + 2], p[j + 1] = p[j], round(p[j] + .5, 1)
            s[j + 1] = NAN
    if how == "gaps":
        for v in (p, t, s):
            v[rng.randrange(nl)] = NAN
    if how == "short":
        k = rng.randint(0, 3)
        for v in (p, t, s):
            v[k:] = [NAN] * (nl - k)
    if how == "shallow":
        k = sum(1 for x in p if x <= 300)
        for v in (p, t, s):
            v[k:] = [NAN] * (nl - k)
    return {"lat": round(-31 - .01 * i - rng.uniform(0, .009), 5), "long": round(rng.uniform(0, 359), 3), "dates": round(rng.uniform(1990, 2015), 4),
            "z": round(rng.uniform(2000, 5500), 1), "pres": p, "sal": s, "ptmp": t, "tmp": []}


def odd(rng, e, kind):
    """Temperature and salinity that can be compared with the envelopes and are outside the one of that side, if some are found."""
    def at(xs, ys, v):
        for a, b, c, d in zip(xs, xs[1:], ys, ys[1:]):
            if min(a, b) <= v <= max(a, b) and a != b:
                return c + (d - c) * (v - a) / (b - a)
    add = lambda k, w: [x + w * y for x, y in zip(e[k][2:], e["d" + k][2:])]
    for _ in range(200):
        t, s = rng.uniform(2, 6), rng.uniform(34, 34.75)
        a, b = [at(add("tn", w), add("sn", w), t) for w in (-1, 1)]
        g, h = [at(add("ss", w), add("ts", w), s) for w in (-1, 1)]
        if None not in (a, b, g, h) and not (a < s < b if kind == "north" else g < t < h):
            break
    return t, s


def profile(rng, e, kind, nl):
    """A float profile: kind says how it is to be classed."""
    digits = rng.choice([0, 1, 1])              # whole pressures are given as integers
    p = sorted({round(rng.uniform(4, 2050), digits) for _ in range(nl)})
    while len(p) < nl:
        p.append(round(p[-1] + rng.uniform(1, 20), digits))
    if rng.random() < .3:
        p = sorted(set(p[:-1]) | {300.0})
        while len(p) < nl:
            p.append(round(p[-1] + rng.uniform(1, 20), digits))
    at = lambda v, x: next((v[i] + (v[i + 1] - v[i]) * (x - e["deph"][i]) / (e["deph"][i + 1] - e["deph"][i])
                            for i in range(len(v) - 1) if e["deph"][i] <= x <= e["deph"][i + 1]), v[-1])
    if kind in ("north", "south"):                 # near the typical profile of that side
        tk, sk = ("tn", "sn") if kind == "north" else ("ts", "ss")
        off, w = rng.uniform(-1, 1), rng.choice([.3, .8, 1.3])
        t = [at(e[tk], x) + w * off * at(e["d" + tk], x) for x in p]
        s = [at(e[sk], x) + w * rng.uniform(-.3, .3) * at(e["d" + sk], x) for x in p]
        k = rng.choice([0, 0, 1])                  # pull the temperature at 300 into the open band
        m = t[min(range(nl), key=lambda i: abs(p[i] - 300))]
        if k or not 3 < m < 5:
            t = [x + (rng.uniform(3.2, 4.8) - m) * 2.718 ** (-((y - 300) / 200) ** 2) for x, y in zip(t, p)] if rng.random() < .5 else t
    else:
        target = {"warm": rng.uniform(5, 12), "cold": rng.uniform(-1, 3), "edge": rng.choice([5.0, 3.0, 5.01, 4.99, 3.01, 2.99]), "open": rng.uniform(3, 5)}[kind]
        t = [target + .002 * (300 - x) for x in p]
        s = [34.2 + .0002 * x + rng.gauss(0, .01) for x in p]
    t, s = [round(x, 4) for x in t], [round(x, 4) for x in s]
    if kind in ("north", "south") and rng.random() < .5:           # on the depths of the typical profile, all but one agree with that side
        tk, sk = ("tn", "sn") if kind == "north" else ("ts", "ss")
        p, t, s = [list(e[k]) for k in ("deph", tk, sk)]
        x = rng.choice([[y for y in p if y not in (250, 300, 350)], [y for y in p if y in (150, 1700)], [100, 200] + [y for y in p if 1600 <= y <= 1800]][rng.randrange(3)])
        if rng.random() < .8:
            t[p.index(x)], s[p.index(x)] = odd(rng, e, kind)
        i = min(range(len(p)), key=lambda k: abs(p[k] - 300))
        if not 3 < t[i] < 5:                        # into the open band
            k = min(range(len(p)), key=lambda k: abs(e[tk][k] - rng.uniform(3.1, 4.5)))
            t[i], s[i] = e[tk][k], e[sk][k]
        return {"pres": p, "tmp": [round(x, 5) for x in t], "sal": [round(x, 5) for x in s]}
    how = rng.choice(["", "", "", "", "gaps", "repeat", "short", "salt gaps", "tail"])
    if how == "gaps":
        for v in (p, t, s):
            v[rng.randrange(nl)] = NAN
    if how == "repeat":
        j = rng.randrange(nl - 1)
        p[j + 1] = p[j]
        if rng.random() < .5:
            t[j] = NAN
    if how == "short":
        k = rng.randint(0, 3)
        for v in (p, t, s):
            v[k:] = [NAN] * (nl - k)
    if how == "salt gaps":
        for _ in range(3):
            s[rng.randrange(nl)] = NAN
    if how == "tail":
        k = sum(1 for x in p if x <= 300)
        t[k:] = [NAN] * (nl - k)
    return {"pres": p, "tmp": t, "sal": s}


def check(r, replay):
    from runner import standard, REPO, PY
    import subprocess
    import json
    rng = r.rng
    # the file that comes with the repository, when it is there
    src = ("import scipy.io as s, json; d = s.loadmat(%r); k = dict(deph='Deph', sn='S_meanN', tn='T_meanN', ss='S_meanS', ts='T_meanS', dsn='S_stdN', "
           "dtn='T_stdN', dss='S_stdS', dts='T_stdS'); print(json.dumps({a: [float(x) for x in d[b].flatten()] for a, b in k.items()}))"
           % (REPO + "/data/constants/TypicalProfileAroundSAF.mat"))
    p = subprocess.run([PY, "-c", src], capture_output=True, text=True)
    real = json.loads(p.stdout) if p.returncode == 0 else None
    if real is None:
        r.notes.append("the repository's typical profiles could not be read: only made-up envelopes used")
    cases = []
    for i in range(r.pick(160, 2600)):
        e = dict(envelopes(rng, real if i % 2 == 0 else None))
        wide = rng.choice([""] * 8 + ["dsn", "dts"])
        if wide:                                  # nearly every profile is of that side
            e[wide] = [9.] * len(e["deph"])
        nl = rng.choice([2, 4, 8, 16])
        casts = [cast(rng, k, rng.choice([5, 3, 5.01, 4.99, 3.01, 2.99, rng.uniform(-1, 10), rng.uniform(-1, 10)]), nl) for k in range(rng.randint(1, 9))]
        lat = rng.choice([-30.0, -29.99, -10.0, 45.0]) if i % 8 == 3 else rng.choice([-30.01, -45.2, -60.0, -51.3, -31.0])
        cases.append({"kind": "front", "in": {"saf": e, "lat": lat, "casts": casts,
                                              "float": profile(rng, e, rng.choice(["north", "north", "south", "south", "warm", "cold", "edge", "open"]), rng.choice([3, 10, 30]))}})

    def controls(c):
        o = c["out"]
        if "error" in o or c["k"] % 5 or not o["lat"]:
            return
        yield "cast dropped", {k: (v[1:] if isinstance(v, list) and k != "tmp" else v) for k, v in o.items()}
        yield "depths", dict(o, z=[x + 1 for x in o["z"]])
    return standard(r, "c18", "T_C18", cases, controls, replay=replay)
