"""C09: interp_climatology against Interp."""
ASSUMPTIONS = ["two brackets whose pressures are equally near within 1e-7 dbar may either be taken",
               "a bracket needs two levels of different temperature"]
EXPECT = ["several brackets", "gaps in a cast", "one-level cast", "cast without levels", "plateau", "incomplete float level", "exact coincidence"]


def run(case, box):
    import numpy as np
    from pyowc.data.wrangling import interp_climatology
    from world import stored
    q = case["in"]
    n = max([len(c["sal"]) for c in q["casts"]])
    g = {k: np.full((n, len(q["casts"])), np.nan) for k in ("sal", "ptmp", "pres")}
    for j, c in enumerate(q["casts"]):
        for k in g:
            g[k][:len(c[k]), j] = c[k]
    f = {k: np.array(q["float"][k], dtype=float) for k in g}
    if q["column"]:
        f = {k: v.reshape(-1, 1) for k, v in f.items()}
    if q["stored"]:
        g, f = {k: stored(v) for k, v in g.items()}, {k: stored(v) for k, v in f.items()}
    args = [g["sal"], g["ptmp"], g["pres"], f["sal"], f["ptmp"], f["pres"]]
    before = [a.copy() for a in args]
    s, p = interp_climatology(*args)
    return {"sal": s, "pres": p, "unchanged": all(np.array_equal(a, b, equal_nan=True) for a, b in zip(args, before))}


def cast(rng, n, grid, gap, style):
    """A cast whose temperatures may be on a grid (ties), with inversions or plateaus."""
    pres = sorted(rng.uniform(5, 1500) for _ in range(n))
    t = sorted((rng.uniform(2, 15) for _ in range(n)), reverse=True)
    if style == "wild":
        rng.shuffle(t)
    if style == "plateau" and n > 2:
        i = rng.randrange(n - 1)
        for j in range(i, min(n, i + rng.randint(2, 4))):
            t[j] = t[i]
    if style == "zigzag":
        t = [x + rng.choice([-2, 0, 2]) for x in t]
    if grid:
        t = [round(x * 2) / 2 for x in t]
        pres = [float(round(p)) for p in pres]
    s = [34 + 0.1 * x + rng.uniform(-.3, .3) for x in t]
    c = {"sal": s, "ptmp": t, "pres": pres}
    for i in range(n):
        if rng.random() < gap:
            c[rng.choice(["sal", "ptmp", "pres"])][i] = float("nan")
    if gap and rng.random() < .1:
        c["sal"] = [float("inf") if rng.random() < .2 else x for x in c["sal"]]
    return c


def check(r, replay):
    from runner import standard
    rng = r.rng
    cases = []
    for _ in range(r.pick(320, 6000)):
        grid = rng.random() < .4
        style = lambda: rng.choice(["plain", "plain", "wild", "plateau", "zigzag"])
        gap = lambda: rng.choice([0, 0, .1, .3, .7])
        even = rng.choice([2, 3, 6, 9]) if rng.random() < .15 else 0
        casts = [cast(rng, even or rng.choice([1, 2, 3, 6, 9, 12]), grid or even, 0 if even else gap(), style()) for _ in range(rng.randint(1, 5))]
        if rng.random() < .15 and not even:
            casts.append({k: [float("nan")] * 3 for k in ("sal", "ptmp", "pres")})
        if rng.random() < .04:
            casts = casts[-1:]
        if rng.random() < .2 and len(casts) > 1:          # the same cast twice gives the same column twice
            casts.append(casts[0])
        rng.shuffle(casts)
        fl = cast(rng, rng.choice([1, 2, 5, 10]), grid, rng.choice([gap(), 0]), style())
        if rng.random() < .3:                             # a float level exactly on a cast level
            c = rng.choice(casts)
            i = rng.randrange(len(fl["ptmp"]))
            fl["ptmp"][i] = rng.choice(c["ptmp"])
        cases.append({"kind": "interpolation", "in": {"casts": casts, "float": fl, "column": rng.random() < .3, "stored": rng.random() < .5}})

    def controls(c):
        if c["k"] % 31 or "sal" not in c["out"]:
            return
        o = c["out"]
        for i, row in enumerate(o["sal"]):
            for j, x in enumerate(row):
                if x == x:
                    y = [list(z) for z in o["sal"]]
                    y[i][j] = x + 1e-6
                    yield "salinity", dict(o, sal=y)
                    y = [list(z) for z in o["pres"]]
                    y[i][j] = float("nan")
                    yield "pressure", dict(o, pres=y)
                    return
    return standard(r, "c09", "T_C09", cases, controls, replay=replay)
