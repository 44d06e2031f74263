"""C12: brk_pt_fit and sorter against Piecewise."""
ASSUMPTIONS = ["observations are given in ascending x and breaks in ascending order, as the fit gives them",
               "systems that are singular but do not contain a zero or repeated column exactly are not judged (rounding decides whether they are noticed)",
               "a point on a break may be counted to either side"]
EXPECT = ["singular", "regular", "weighted", "equal weights", "break at an observation", "repeated x", "inconsistent inputs", "intervals"]


def run(case, box):
    import numpy as np
    from pyowc.core.stats import brk_pt_fit
    from pyowc.utilities import sorter
    q = case["in"]
    if case["kind"] == "sorter":
        return {"p": [int(v) for v in np.asarray(sorter(np.array(q["m"], dtype=float), np.array(q["s"], dtype=float))).flatten()]}
    f = (lambda a: np.array(a, dtype=float).reshape(-1, 1)) if q["column"] else (lambda a: np.array(a, dtype=float))
    x, y, w, b = f(q["x"]), f(q["y"]), np.array(q["w"], dtype=float), np.array(q["breaks"], dtype=float)
    if not q["w"]:
        w = []
    before = [x.copy(), y.copy(), np.array(w), b.copy()]
    a, res = brk_pt_fit(x, y, w, b) if len(b) or q["give"] else brk_pt_fit(x, y, w)
    same = all(np.array_equal(u, np.array(v)) for u, v in zip(before, [x, y, w, b]))
    return {"coef": np.asarray(a).flatten(), "res": np.asarray(res).flatten(), "unchanged": same}


def check(r, replay):
    from runner import standard
    rng = r.rng
    cases = []
    for _ in range(r.pick(330, 6000)):
        n = rng.choice([1, 2, 3, 5, 8, 14, 20])
        style = rng.choice(["even", "free", "ties", "same", "far"])
        x = {"even": [float(i) for i in range(n)], "free": [rng.uniform(-1, 1) for _ in range(n)],
             "ties": [float(rng.randint(0, max(2, n // 2))) for _ in range(n)], "same": [1.5] * n,
             "far": [100 + rng.uniform(0, 300) for _ in range(n)]}[style]
        if style == "same" and rng.random() < .6:
            x = [x[0] + (i > n // 2) for i in range(n)]
        x.sort()
        u = sorted(set(x))
        nb = rng.choice([0, 0, 1, 1, 2, 3])
        br = set()
        for _ in range(nb):
            w = rng.random()
            if w < .5 and len(u) > 1:
                br.add(rng.uniform(u[0], u[-1]))
            elif w < .8 and len(u) > 2:
                br.add(rng.choice(u[1:-1]))
            elif w < .9:
                br.add(rng.choice([u[0], u[-1]]))
            else:
                br.add(u[-1] + rng.uniform(.1, 3))
        br = sorted(br)
        y = [rng.gauss(0, 1) + (3 * v if rng.random() < .9 else 0) for v in x]
        if rng.random() < .1:
            y = [2 + .5 * v for v in x]
        wt = []
        w = rng.random()
        if w < .35:
            wt = [[rng.uniform(.1, 9) if i == j else 0.0 for j in range(n)] for i in range(n)]
        elif w < .6:
            a = [[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)]
            wt = [[sum(a[i][k] * a[j][k] for k in range(n)) + (1.0 if i == j else 0) for j in range(n)] for i in range(n)]
        # columns of the system that vanish exactly
        knots = [x[0]] + br
        lens = []
        for j, k in enumerate(knots):
            hi = knots[j + 1] if j + 1 < len(knots) else float("inf")
            lens.append(any(v > k for v in x) and hi > k)
        exact = not all(lens)
        spans = [b - a for a, b in zip(u, u[1:])] or [1]
        cases.append({"kind": "fit", "in": {"x": x, "y": y, "w": wt, "breaks": br, "column": rng.random() < .4,
                                            "give": rng.random() < .5, "exact": exact, "slack": "%.3g" % max(1.0, 1 / max(1e-6, min(
                                                [b - a for a, b in zip(sorted(u + br), sorted(u + br)[1:]) if b > a] or [1])) * 10)}})
    for _ in range(r.pick(12, 60)):
        n, m = rng.choice([(3, 4), (5, 2), (1, 2), (6, 5)])
        cases.append({"kind": "fit", "in": {"x": [float(i) for i in range(n)], "y": [rng.gauss(0, 1) for _ in range(m)], "w": [], "column": False,
                                            "breaks": [1.5] if n > 3 and rng.random() < .5 else [], "give": True, "exact": False, "slack": "1"}})
    for _ in range(r.pick(120, 2000)):
        g = rng.random() < .5
        p = (lambda: float(rng.randint(0, 6))) if g else (lambda: rng.uniform(0, 6))
        m = sorted(set([p() for _ in range(rng.randint(1, 5))]))
        s = sorted(p() for _ in range(rng.randint(1, 12)))
        cases.append({"kind": "sorter", "in": {"m": m, "s": s}})

    def controls(c):
        o = c["out"]
        if c["k"] % 31 or "error" in o:
            return
        if c["kind"] == "sorter":
            yield "interval", {"p": [o["p"][0] + 2] + o["p"][1:]}
        elif any(o["coef"]):
            yield "coefficient", dict(o, coef=[o["coef"][0] + .01 * (1 + max(map(abs, c["in"]["y"])))] + o["coef"][1:])
            yield "residual", dict(o, res=[v + .01 * (1 + max(map(abs, c["in"]["y"]))) for v in o["res"]])
    return standard(r, "c12", "T_C12", cases, controls, replay=replay)
