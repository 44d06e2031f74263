"""C10: map_data_grid against ObjMap!Objective."""
ASSUMPTIONS = ["values are compared within 1e-7 of the data range (looser where the data covariance is badly conditioned), "
               "squared errors within 1e-6 of the signal variance",
               "coinciding data come with some noise; depths are not zero"]
EXPECT = ["with vorticity", "without time", "coinciding data", "far target", "one datum"]


def run(case, box):
    import numpy as np
    from pyowc.data.wrangling import map_data_grid
    q = case["in"]
    sal, tgt, dat = np.array(q["sal"], dtype=float), np.array([q["target"]], dtype=float), np.array(q["data"], dtype=float)
    before = [sal.copy(), tgt.copy(), dat.copy()]
    v, e, vs, es = map_data_grid(sal, tgt, dat, q["lat"], q["long"], q["age"], q["signal"], q["noise"], q["phi"], q["pv"])
    return {"value": float(v), "err": float(e), "values": np.asarray(vs).flatten(), "errors": np.asarray(es).flatten(),
            "unchanged": all(np.array_equal(a, b) for a, b in zip(before, [sal, tgt, dat]))}


def problem(rng, n):
    base = [rng.uniform(-60, 60), rng.uniform(10, 350), rng.uniform(1990, 2015), rng.uniform(1500, 5000)]
    q = {"lat": rng.uniform(1, 8), "long": rng.uniform(1, 8), "age": rng.choice([0, rng.uniform(.5, 20)]),
         "phi": rng.uniform(.1, 1), "pv": rng.randint(0, 1), "signal": rng.uniform(.001, .5)}
    q["noise"] = q["signal"] * rng.choice([.01, .1, .5, 2])
    wide = rng.choice([.5, 2, 6])
    data = []
    for _ in range(n):
        if data and rng.random() < .1:
            data.append(list(rng.choice(data)))
        else:
            data.append([base[0] + rng.gauss(0, wide), base[1] + rng.gauss(0, wide), base[2] + rng.uniform(-9, 9),
                         base[3] * rng.uniform(.7, 1.4)])
    m = rng.uniform(33, 36) if rng.random() < .7 else 0.0
    q.update(sal=[m + rng.gauss(0, q["signal"] ** .5) for _ in range(n)], data=data, target=[base[0], base[1], base[2], base[3]], tol="1e-7")
    w = rng.random()
    if w < .12:
        q["target"] = list(rng.choice(data))
    elif w < .24:
        q["target"] = [base[0] - 30 if base[0] > 0 else base[0] + 30, base[1] + 200, base[2] + 90, base[3]]
    if rng.random() < .06:
        q["data"][0][0] = 0.0
        q["target"][0] = rng.choice([0.0, q["target"][0]])
    return q


def check(r, replay):
    from runner import standard
    rng = r.rng
    cases = []
    for i in range(r.pick(170, 2500)):
        n = rng.choice([1, 2, 3, 5, 8, 12, 18] + ([30] if r.quick and i % 4 == 0 else []) + ([] if r.quick else [30, 50]))
        q = problem(rng, n)
        cases.append({"kind": "mapping", "in": q})
        if i % 5 == 0:                            # another order of the data, and data shifted by a constant
            o = list(range(n))
            rng.shuffle(o)
            cases.append({"kind": "reordered", "in": dict(q, sal=[q["sal"][j] for j in o], data=[q["data"][j] for j in o])})
            cases.append({"kind": "shifted", "in": dict(q, sal=[x + 3 for x in q["sal"]])})
        if i % 6 == 0:                            # no noise at all, data far enough from each other
            d = [[10 + 2.5 * q["long"] * a, 30 + 2.5 * q["lat"] * b, 2000, 3000.0] for a in range(3) for b in range(3)][:max(1, min(n, 9))]
            cases.append({"kind": "exact", "in": dict(q, sal=(q["sal"] * 9)[:len(d)], data=d, noise=0.0, pv=0, age=0,
                                                      target=rng.choice([d[0], [11.0, 31.0, 2000, 3000.0]]))})

    def controls(c):
        o = c["out"]
        if c["k"] % 29 or "value" not in o:
            return
        a = 1e-5 * (1 + abs(o["value"]))
        yield "value", dict(o, value=o["value"] + a)
        yield "error", dict(o, err=o["err"] * 1.01 + 1e-3)
        yield "values", dict(o, values=[x + a for x in o["values"]])
    return standard(r, "c10", "T_C10", cases, controls, replay=replay)
