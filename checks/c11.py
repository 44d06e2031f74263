"""C11: covariances, signal and noise variances against ObjMap."""
ASSUMPTIONS = ["where several casts are equally near, the noise variance may use any of them",
               "potential temperatures of the fit covariance lie in -2..30 degrees, depths are not zero",
               "signal variance of only missing values is unspecified (the code raises)"]
EXPECT = ["with vorticity", "without time", "zero vorticity", "signal with gaps", "no noise", "noise with equally near casts",
          "fit covariance with gaps", "fit covariance with vorticity"]


def run(case, box):
    import numpy as np
    from pyowc.core import stats
    q, k = case["in"], case["kind"]
    if k == "cov":
        p, s = np.array(q["p"], dtype=float), np.array(q["q"], dtype=float)
        b = [p.copy(), s.copy()]
        a = (q["lat"], q["long"], q["age"], q["phi"], q["pv"])
        return {"cov": stats.covar_xyt_pv(p, s, *a), "back": stats.covar_xyt_pv(s, p, *a),
                "unchanged": bool(np.array_equal(p, b[0]) and np.array_equal(s, b[1]))}
    if k == "signal":
        x = np.array(q["sal"], dtype=float)
        if q["two"]:
            x = x.reshape(-1, 1)
        b = x.copy()
        return {"v": float(stats.signal_variance(x)), "unchanged": bool(np.array_equal(x, b, equal_nan=True))}
    if k == "noise":
        p = np.array(q["p"], dtype=float)
        a = [np.array(q["sal"], dtype=float), p[:, 0].copy(), p[:, 1].copy()]
        b = [x.copy() for x in a]
        return {"v": float(stats.noise_variance(*a)), "unchanged": all(np.array_equal(x, y) for x, y in zip(a, b))}
    cfg = {"MAPSCALE_LONGITUDE_SMALL": q["s"]["long"], "MAPSCALE_LATITUDE_SMALL": q["s"]["lat"],
           "MAPSCALE_PHI_SMALL": q["s"]["phi"], "MAP_USE_PV": q["s"]["pv"],
           "MAPSCALE_LONGITUDE_LARGE": 11.3, "MAPSCALE_LATITUDE_LARGE": 7.7, "MAPSCALE_PHI_LARGE": .77}
    co = np.array(q["coord"], dtype=float)
    if k == "horiz":
        return {"v": np.asarray(stats.covarxy_pv(co[q["a"]], co, q["s"]["long"], q["s"]["lat"], q["s"]["phi"], q["s"]["pv"])).flatten()}
    t = np.array(q["ptmp"], dtype=float)
    b = [t.copy(), co.copy()]
    m = stats.build_cov(t, co, cfg)
    return {"cov": m, "unchanged": bool(np.array_equal(t, b[0], equal_nan=True) and np.array_equal(co, b[1]))}


def point(rng, wide=5):
    return [rng.choice([10 + rng.gauss(0, wide), 10 + rng.gauss(0, wide), -20 + rng.gauss(0, wide), 0.0]), 40 + rng.gauss(0, wide),
            2000 + rng.uniform(-10, 10), rng.choice([rng.uniform(500, 6000), rng.uniform(500, 6000), -rng.uniform(5, 400)])]


def check(r, replay):
    from runner import standard
    rng = r.rng
    cases = []
    for _ in range(r.pick(150, 3000)):
        p = [point(rng) for _ in range(rng.randint(1, 6))]
        q = [point(rng) for _ in range(rng.randint(1, 6))]
        if rng.random() < .3:
            q = [list(x) for x in p]
        q = q + [list(p[0])]
        cases.append({"kind": "cov", "in": {"p": p, "q": q, "lat": rng.uniform(.5, 9), "long": rng.uniform(.5, 9),
                                            "age": rng.choice([0, rng.uniform(.5, 20)]), "phi": rng.uniform(.05, 2), "pv": rng.randint(0, 1)}})
    for _ in range(r.pick(60, 1000)):
        n = rng.randint(1, 25)
        s = [rng.uniform(33, 36) for _ in range(n)]
        if rng.random() < .3:
            s = [s[0]] * n
        for i in range(1, n):
            if rng.random() < .2:
                s[i] = float("nan")
        rng.shuffle(s)
        cases.append({"kind": "signal", "in": {"sal": s, "two": rng.random() < .3}})
    for _ in range(r.pick(150, 3000)):
        n = rng.choice([1, 2, 3, 4, 8, 15, 30])
        style = rng.choice(["free", "free", "grid", "few", "one"])
        pos = lambda: {"free": [rng.uniform(-60, 60), rng.uniform(0, 400)], "grid": [rng.randint(0, 3), rng.randint(0, 3)],
                       "few": [rng.choice([1.5, 2.25]), rng.choice([3.5, 3.5, 7.75])], "one": [3.25, 4.5]}[style]
        cases.append({"kind": "noise", "in": {"p": [pos() for _ in range(n)], "sal": [rng.uniform(33, 36) for _ in range(n)]}})
    for _ in range(r.pick(60, 900)):
        m, n = rng.randint(1, 5), rng.randint(1, 4)
        t = []
        for _ in range(m):
            t.append([rng.choice([rng.uniform(-2, 30), rng.uniform(0, 9), rng.choice([30, 24, 18, 12, 8, 4, 2.5, 1, -2])]) * 1.0 for _ in range(n)])
        if rng.random() < .4:
            t[rng.randrange(m)][rng.randrange(n)] = float("nan")
        if rng.random() < .1:
            for row in t:
                row[0] = float("nan")
        co = [[x[0] * 1.0, x[1], x[3]] for x in (point(rng, 2) for _ in range(n))]
        if rng.random() < .2:
            co[-1] = list(co[0])
        s = {"long": rng.uniform(.5, 9), "lat": rng.uniform(.5, 9), "phi": rng.uniform(.05, 2), "pv": rng.randint(0, 1)}
        cases.append({"kind": "fitcov", "in": {"ptmp": t, "coord": co, "s": s}})
        cases.append({"kind": "horiz", "in": {"coord": co, "a": rng.randrange(n), "s": s}})

    def controls(c):
        o = c["out"]
        if c["k"] % 17 or "error" in o:
            return
        if isinstance(o.get("v"), float):
            if o["v"]:
                yield "value", dict(o, v=o["v"] * 2.1 + 1e-9)
        elif c["kind"] == "fitcov":
            yield "entry", dict(o, cov=o["cov"][:-1] + [o["cov"][-1][:-1] + [o["cov"][-1][-1] * .999]])
        elif c["kind"] == "cov":
            yield "entry", dict(o, cov=o["cov"][:-1] + [o["cov"][-1][:-1] + [o["cov"][-1][-1] * .999 + 1e-9]])
    return standard(r, "c11", "T_C11", cases, controls, replay=replay)
