"""C13: fit_cond against CalFit."""
ASSUMPTIONS = ["positions of breaks are found by a search from evenly spread positions: required is that none of offset, line, prescribed breaks and "
               "(for equal errors) the starting positions has a lower criterion, and that the search does not end worse than it began",
               "errors of fits with searched breaks are Monte Carlo estimates and only judged, within a factor, when the breaks are well determined"]
EXPECT = ["no data", "offset", "line", "one break", "several breaks", "prescribed breaks", "prescribed and found breaks", "exact number of breaks",
          "limited by degrees of freedom", "profile without data", "first profile without data", "last profile without data", "uneven errors",
          "even errors", "profiles out of order", "error of searched breaks", "break that could move", "guessed breaks"]
NAN = float("nan")


def run(case, box):
    import numpy as np
    from pyowc.core.stats import fit_cond
    from world import stored
    q = case["in"]
    nl = len(q["y"][0])
    kept = stored if q["stored"] else lambda v: v
    x = np.tile(kept(np.array(q["x"], dtype=float)), (nl, 1))
    y, e, cov = np.array(q["y"], dtype=float).T, np.array(q["e"], dtype=float).T, np.array(q["cov"], dtype=float)
    args = []
    if q["given"]:
        args += ["breaks", kept(np.array(q["given"], dtype=float))]
    if q["exactly"]:
        args += ["number_breaks", q["max"]]
    elif not q["unsaid"]:
        args += ["max_no_breaks", q["max"]]
    if q["first"]:
        g = q["first"][::-1]
        args += ["initial_breaks", [g, np.array(g), np.array([g]), np.array([g]).T][int(q["x"][0]) % 4]]
    args += ["nloops", q["nloops"]]
    before = [v.copy() for v in (x, y, e, cov)]
    np.random.seed(5)
    r = fit_cond(x, y, e, cov, *args)
    f = lambda v: np.asarray(v, dtype=float).flatten()
    return {"x": f(r[0]), "fit": f(r[1]), "err": f(r[2]), "slope": f(r[3]), "slopeerr": f(r[4]), "mean": f(r[5]), "rms": f(r[6]),
            "ndf": float(r[7]) if np.size(r[7]) == 1 else NAN, "coef": f(r[8]), "breaks": f(r[9]),
            "unchanged": all(np.array_equal(a, b, equal_nan=True) for a, b in zip(before, (x, y, e, cov)))}


def series(rng, np_, nl, sharp=False):
    import math
    q = {}
    x = [float(i + 1) for i in range(np_)]
    if not sharp and rng.random() < .3:
        x = sorted(rng.sample(range(1, 4 * np_ + 1), np_))
        x = [float(v) for v in x]
    if rng.random() < .2:
        start = rng.randint(60, 200)
        x = [v + start for v in x] if rng.random() < .5 else [start + 5 * v for v in x]
    lo, hi = (x[1], x[-2]) if np_ > 3 else (x[0], x[-1])
    kinks = rng.choice([0, 0, 1, 1, 2, 3])
    if rng.random() < .6:
        at = [lo + (hi - lo) * (i + 1) / (kinks + 1) for i in range(kinks)]
    else:
        at = sorted(rng.uniform(lo, hi) for _ in range(kinks))
    shape = rng.choice(["flat", "line", "kinks", "kinks", "kinks"])
    if kinks and np_ >= 6 and rng.random() < .3:       # changes before the second or after the last but one profile
        at[0 if rng.random() < .5 else -1] = rng.choice([x[0] + .5 * (x[1] - x[0]), x[-2] + .5 * (x[-1] - x[-2])])
        at.sort()
    if sharp:                                # steep segments with little noise
        kinks, shape = rng.choice([1, 1, 2]), "kinks"
        at = [x[int((i + 1) * np_ / (kinks + 1))] + rng.uniform(.35, .65) * (x[int((i + 1) * np_ / (kinks + 1)) + 1] - x[int((i + 1) * np_ / (kinks + 1))]) for i in range(kinks)]
    slope = [rng.choice([-1, 1]) * rng.uniform(.3, 2) * 1e-3 for _ in range(kinks + 1)]
    for i in range(1, kinks + 1):
        if slope[i] * slope[i - 1] > 0:
            slope[i] = -slope[i]

    def f(v):
        if shape == "flat":
            return 1.0
        if shape == "line":
            return 1 + slope[0] * v
        t, k = 1.0, [x[0]] + at + [1e9]
        for i in range(kinks + 1):
            t += slope[i] * (min(max(v, k[i]), k[i + 1]) - k[i])
        return t
    noise = rng.choice([1e-6, 1e-4, 1e-3])
    unit = rng.choice([1, 1, 35.0])
    even = rng.random() < .6
    e0 = rng.choice([1e-4, 1e-3])
    if sharp:
        noise, unit, even, e0 = rng.choice([1e-6, 1e-5]), 35., True, 1e-4
    elif kinks and rng.random() < .35:         # segments that differ so little that the criterion just sees it, or not
        for i in range(1, kinks + 1):
            slope[i] = slope[i - 1] + rng.choice([-1, 1]) * noise * rng.uniform(.2, 3) * (kinks + 1) / (x[-1] - x[0] + 1)
    q["y"], q["e"] = [], []
    for p in range(np_):
        q["y"].append([unit * f(x[p]) + rng.gauss(0, noise) for _ in range(nl)])
        q["e"].append([e0 if even else e0 * rng.uniform(.3, 3) for _ in range(nl)])
    how = rng.choice(["", "", "", "levels", "first", "last", "middle"])
    for p in range(np_):
        for l in range(nl):
            if how == "levels" and rng.random() < .3 or how == "first" and p == 0 or how == "last" and p == np_ - 1 or how == "middle" and p == np_ // 2:
                q["y"][p][l] = NAN
                if rng.random() < .5:
                    q["e"][p][l] = NAN
    style = rng.choice(["none", "none", "profile", "both", "strong"])
    n = np_ * nl
    d, c = {"none": (0, 0), "profile": (3., .01), "both": (2., 2.), "strong": (40., 20.)}[style]
    q["cov"] = [[1.0 if i == j else 0.0 if style == "none" else
                 math.exp(-abs(i % nl - j % nl) / d - abs(x[i // nl] - x[j // nl]) / (c * 2)) for j in range(n)] for i in range(n)]
    q["clear"] = style == "none"
    q["x"] = x
    if rng.random() < .15:
        o = list(range(np_))
        rng.shuffle(o)
        q["x"], q["y"], q["e"] = [[q[k][i] for i in o] for k in ("x", "y", "e")]
        idx = [i * nl + l for i in o for l in range(nl)]
        q["cov"] = [[q["cov"][a][b] for b in idx] for a in idx]
    return q, at if shape == "kinks" else []


def check(r, replay):
    from runner import standard
    rng = r.rng
    cases = []
    for i in range(r.pick(260, 1800)):
        np_, nl = rng.choice([(1, 3), (2, 3), (3, 4), (4, 4), (6, 2), (8, 3), (10, 2), (12, 1), (12, 3), (16, 2)])
        sharp = i % 8 == 5
        if sharp:
            np_, nl = rng.choice([(12, 1), (12, 2), (12, 3)])
        q, at = series(rng, np_, nl, sharp)
        q.update(given=[], first=[], exactly=False, unsaid=False, nloops=3, stored=rng.random() < .5, sharp=sharp)
        style = rng.choice(["max", "max", "max", "default", "given", "given more", "given more", "exact"])
        q["max"] = rng.choice([-1, 0, 1, 1, 2, 3, 4])
        xs = sorted(v for v, l in zip(q["x"], q["y"]) if any(t == t for t in l))
        if style.startswith("given") and len(xs) >= 5:
            b = sorted(set(rng.choice([a, rng.uniform(xs[1], xs[-2])]) for a in (at or [xs[2] + .37])))
            b = [v for v in b if xs[1] < v < xs[-2]]
            b = [v for j, v in enumerate(b) if j == 0 or sum(1 for t in xs if b[j - 1] < t < v) > 0][:rng.choice([1, 2])]
            if style == "given more":
                b = b[:1] if rng.random() < .5 else b[-1:]
            q["given"] = b
            q["max"] = len(b) + (rng.choice([1, 2]) if style == "given more" else rng.choice([0, -len(b)])) if b else q["max"]
        elif style == "exact" and np_ >= 8:
            q["exactly"] = True
            q["max"] = rng.choice([-1, 0, 1, 2])
        elif style == "default":
            q["unsaid"] = True
            q["max"] = 4
        if q["max"] <= 0 or q["given"] and q["max"] <= len(q["given"]):
            q["nloops"] = 1200
        elif sharp:
            q.update(nloops=300, given=[], exactly=True, unsaid=False, max=len(at))
        if i % 5 == 2 and np_ >= 6:
            u = xs if len(xs) > 3 else sorted(q["x"])
            q["first"] = sorted(rng.sample([u[1] + (u[-2] - u[1]) * j / 20 for j in range(1, 20)], rng.choice([1, 2, 4])))
        if i % 25 == 3:
            q["y"] = [[NAN] * len(p) for p in q["y"]]
        cases.append({"kind": "fit", "in": q})

    def controls(c):
        o = c["out"]
        if "error" in o or c["k"] % 6 or not o["coef"] or o["coef"][0] != o["coef"][0]:
            return
        yield "fit", dict(o, fit=[v * 1.01 for v in o["fit"]])
        yield "model", dict(o, coef=o["coef"] + [1e-3] * (1 if len(o["coef"]) > 1 else 2), breaks=o["breaks"] + ([c["in"]["x"][0]] if len(o["coef"]) > 1 else []))
        if c["in"]["nloops"] == 300:
            yield "error of searched breaks", dict(o, err=[v * 2.3 + 1e-9 for v in o["err"]])
        if len(o["coef"]) == 1 and len(c["in"]["x"]) > 2:
            yield "error", dict(o, err=[v * 1.1 + 1e-9 for v in o["err"]])
    return standard(r, "c13", "T_C13", cases, controls, replay=replay)
