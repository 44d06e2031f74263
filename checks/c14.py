"""C14: find_10thetas against Thetas."""
ASSUMPTIONS = ["levels whose temperatures are equally close within 1e-11 may either be taken",
               "pressures of a profile are distinct"]
EXPECT = ["no level", "ten levels", "fewer levels", "badly covered level", "profile does not reach a level", "theta band excluded", "theta band",
          "pressure band excluded", "pressure band", "one bound", "finer steps", "exactly the fraction"]
NAN = float("nan")


def run(case, box):
    import numpy as np
    from pyowc.core.finders import find_10thetas
    from world import stored
    q = case["in"]
    kept = stored if q["stored"] else lambda v: v
    a = [kept(np.array(q[k], dtype=float).T) for k in ("sal", "ptmp", "pres", "map")]
    b = []
    for k in ("theta_lt", "theta_gt", "pres_lt", "pres_gt"):
        x = q[k]
        b.append({"list": list(x), "flat": kept(np.array(x, dtype=float)),
                  "mat": kept(np.array(x, dtype=float).reshape((1, 1))) if x else np.zeros((0, 0))}[q["form"]])
    before = [x.copy() for x in a]
    percent = {"list": q["percent"], "flat": np.array(q["percent"]), "mat": kept(np.array([[q["percent"]]]))}[q["form"]]
    t, p, ix, var, th = find_10thetas(*a, *b, percent)
    return {"t": np.asarray(t).flatten(), "p": np.asarray(p).flatten(), "index": ix, "var": np.asarray(var).flatten(),
            "theta": np.asarray(th).flatten(), "unchanged": all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, before))}


def series(rng, np_, nl, deep, style, gap, whole=False):
    """Profiles of one float: temperature decreases with pressure, perhaps with inversions."""
    q = {"sal": [], "ptmp": [], "pres": [], "map": []}
    top = rng.uniform(6, 24)
    for _ in range(np_):
        depth = deep if rng.random() < .6 else deep * rng.uniform(.3, 1)
        pres = sorted({float(round(rng.uniform(3, depth))) if whole else round(rng.uniform(3, depth), 1) for _ in range(nl)})
        while len(pres) < nl:
            pres.append(pres[-1] + rng.randint(1, 30) if whole else round(pres[-1] + rng.uniform(1, 30), 1))
        t = [2 + top * 2.718 ** (-x / (deep / 3.)) + rng.gauss(0, .05) for x in pres]
        t.sort(reverse=True)
        if style == "inversions":
            for i in range(1, nl - 1):
                if rng.random() < .2:
                    t[i] += rng.uniform(-.8, .8)
        if style == "plateau":
            t = [round(x * 2) / 2 for x in t]
        t = [round(x, 4) for x in t]
        s = [round(34.4 + .03 * x + rng.gauss(0, .01 + .1 * (p < 200)), 4) for x, p in zip(t, pres)]
        m = [x if p > rng.choice([0, 100, 100]) else NAN for x, p in zip(t, pres)]
        n = rng.randint(1, nl) if rng.random() < (.05 if whole else .3) else nl
        for i in range(nl):
            if i >= n:
                pres[i] = t[i] = s[i] = m[i] = NAN
            if rng.random() < gap:
                m[i] = NAN
            if rng.random() < gap / 3:
                s[i] = NAN
            if rng.random() < gap / 3:
                t[i] = NAN
        if rng.random() < .05:
            m = [NAN] * nl
        for k, v in (("sal", s), ("ptmp", t), ("pres", pres), ("map", m)):
            q[k].append(v)
    return q


def bounds(rng, q, which, v):
    kind = rng.choice(["", "", "lt", "gt", "band", "outside"])
    vals = sorted(x for p in q[v] for x in p if x == x)
    pick = lambda: rng.choice(vals) if rng.random() < .5 else round(rng.uniform(vals[0], vals[-1]), 2)
    lt, gt = [], []
    if vals and kind:
        a, b = sorted([pick(), pick()])
        lt, gt = {"lt": ([b], []), "gt": ([], [a]), "band": ([b], [a]), "outside": ([a], [b])}[kind]
    return lt, gt


def check(r, replay):
    from runner import standard
    rng = r.rng
    cases = []
    for i in range(r.pick(300, 4000)):
        whole = rng.random() < .3
        q = series(rng, rng.choice([1, 2, 3, 4, 4, 5, 8]), rng.choice([2, 6, 14, 20]), rng.choice([8, 60, 300, 900, 900, 2000, 2000]),
                   rng.choice(["plain", "plain", "inversions", "plateau"]), rng.choice([0, 0, .1, .4]), whole)
        q["stored"] = whole and rng.random() < .7
        q["theta_lt"], q["theta_gt"] = bounds(rng, q, "theta", "ptmp")
        q["pres_lt"], q["pres_gt"] = bounds(rng, q, "pres", "pres") if rng.random() < .6 else ([], [])
        q["percent"] = rng.choice([.5, .5, .5, .25, .75, .1, .9, 1.0, 0.0])
        q["form"] = rng.choice(["list", "flat", "mat", "mat"])
        if i % 40 == 7:
            q["map"] = [[NAN] * len(m) for m in q["map"]]
        cases.append({"kind": "levels", "in": q})

    def controls(c):
        o = c["out"]
        if c["k"] % 9 or "error" in o or o["t"][0] != o["t"][0]:
            return
        yield "level", dict(o, t=[o["t"][0] + .01] + o["t"][1:])
        yield "index", dict(o, index=[[x + 1 if x == x else 0 for x in row] for row in o["index"]])
        if o["t"][1] == o["t"][1] and len({v for v in o["var"] if v == v}) > 1:
            yield "order", dict(o, t=[o["t"][1], o["t"][0]] + o["t"][2:], p=[o["p"][1], o["p"][0]] + o["p"][2:])
    return standard(r, "c14", "T_C14", cases, controls, replay=replay)
