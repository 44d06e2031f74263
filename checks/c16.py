"""C16: calc_piecewisefit against the composition in T_C16."""
ASSUMPTIONS = ["the choice of theta levels, the covariance and the fit of one series are taken from the public functions (C14, C11, C13 decide them), conductivities from gsw",
               "errors of fits are random: required within a factor, with the same random seed they are equal",
               "the bathymetry is made up"]
EXPECT = ["inconsistent breaks", "inconsistent numbers of breaks", "no series", "one series", "several series", "series do not start with one",
          "excluded profile", "profile without series number", "profile not mapped", "source out of order", "series without fit", "breaks", "line",
          "prescribed breaks", "both sides of Greenwich", "both sides of the date line"]
NAN = float("nan")


def cols(np, list_of, key):
    return np.array([p[key] for p in list_of], dtype=float).T


def run(case, box):
    import os
    import gsw
    import numpy as np
    from scipy.io import savemat, loadmat
    from world import World, default_bathy, stored
    from pyowc.calibration import calc_piecewisefit
    from pyowc.core.finders import find_10thetas
    from pyowc.core.stats import build_cov, fit_cond
    q = case["in"]
    name, fdir = "4900123", q["dir"]
    w = World(os.path.join(box, "w"), names=q.get("names"))
    cfg = w.config(**q["config"])
    pr = q["profiles"]
    w.write_source(name, [dict(p, date=20100101000000.0 + p["no"]) for p in pr], fdir, q["dtype"])
    kept = (lambda d: {k: stored(v) for k, v in d.items()}) if q["dtype"] == "smallest" else lambda d: d
    os.makedirs(w.path("mapped", fdir.strip("/")), exist_ok=True)
    os.makedirs(w.path("calib", fdir.strip("/")), exist_ok=True)
    mp = q["mapped"]
    nl = len(pr[0]["sal"])
    empty = np.zeros((nl, 0))
    mat = lambda k: cols(np, mp, k) if mp else empty
    mpath = os.path.sep.join([cfg["FLOAT_MAPPED_DIRECTORY"], fdir, cfg["FLOAT_MAPPED_PREFIX"] + name + cfg["FLOAT_MAPPED_POSTFIX"]])
    savemat(mpath, kept({"la_ptmp": mat("ptmp"), "la_mapped_sal": mat("sal"), "la_mapsalerrors": mat("err"),
                    "la_profile_no": np.array([[p["no"] for p in mp]], dtype=float), "selected_hist": np.array([[30., 20., 1.]]) if q["selected"] else []}))
    cpath = os.path.sep.join([cfg["FLOAT_CALIB_DIRECTORY"], fdir, cfg["FLOAT_CALSERIES_PREFIX"] + name + cfg["FLOAT_CALIB_POSTFIX"]])
    mx = np.array(q["max"], dtype=float)
    savemat(cpath, kept({"breaks": np.array(q["breaks"], dtype=float), "max_breaks": {"row": mx.reshape(1, -1), "col": mx.reshape(-1, 1)}[q["form"]],
                    "calseries": np.array([[s["s"] for s in q["calseries"]]], dtype=float), "calib_profile_no": np.array([[s["no"] for s in q["calseries"]]]),
                    "use_theta_lt": q["theta_lt"], "use_theta_gt": q["theta_gt"], "use_pres_lt": [], "use_pres_gt": q["pres_gt"], "use_percent_gt": .5}))
    spath = os.path.sep.join([cfg["FLOAT_SOURCE_DIRECTORY"], fdir, name + cfg["FLOAT_SOURCE_POSTFIX"]])
    read = lambda: [open(p, "rb").read() for p in (spath, mpath, cpath)]
    before = read()
    opath = os.path.sep.join([cfg["FLOAT_CALIB_DIRECTORY"], fdir, cfg["FLOAT_CALIB_PREFIX"] + name + cfg["FLOAT_CALIB_POSTFIX"]])
    np.random.seed(case["k"])
    calc_piecewisefit(fdir, name, cfg)
    unchanged = read() == before
    f = loadmat(opath)
    one = lambda k: np.asarray(f[k], dtype=float).flatten()
    file = {k: one(k) for k in ("pcond_factor", "pcond_factor_err", "time_deriv", "time_deriv_err", "sta_mean", "sta_rms", "PROFILE_NO")}
    file.update({k: np.asarray(f[k], dtype=float).T for k in ("cal_SAL", "cal_SAL_err", "cal_COND", "cal_COND_err", "sta_SAL", "sta_SAL_err")})

    def numbers(x):
        x = np.asarray(x)
        return [float(v) for y in x.flatten() for v in numbers(y)] if x.dtype == object else [float(v) for v in x.flatten()]
    file["fcoef"], file["fbreaks"] = numbers(f["fcoef"]), numbers(f["fbreaks"])
    # tables of the seawater toolbox and the separately specified parts
    sal, ptmp, pres = (cols(np, pr, k) for k in ("sal", "ptmp", "pres"))
    byno = {p["no"]: p for p in mp}
    blank = [NAN] * nl
    mcol = lambda k: np.array([byno[p["no"]][k] if p["no"] in byno else blank for p in pr], dtype=float).T
    mptmp, msal, merr = mcol("ptmp"), mcol("sal"), mcol("err")
    cond = gsw.C_from_SP(sal, ptmp, 0)
    mapped, mapped1 = gsw.C_from_SP(msal, ptmp, 0), gsw.C_from_SP(msal + merr / 100, ptmp, 0)
    cc, ce = file["cal_COND"].T, file["cal_COND_err"].T
    sm, sr = file["sta_mean"].reshape(1, -1) * cond, file["sta_rms"].reshape(1, -1) * cond
    out = {"file": file, "cond": cond.T, "mapped": mapped.T, "mapped1": mapped1.T, "unchanged": unchanged,
           "salt": gsw.SP_from_C(cc, ptmp, 0).T, "salt1": gsw.SP_from_C(cc + ce, ptmp, 0).T,
           "sta": gsw.SP_from_C(sm, ptmp, 0).T, "sta1": gsw.SP_from_C(sm + sr, ptmp, 0).T, "parts": []}
    no = [p["no"] for p in pr]
    ser = {s["no"]: s["s"] for s in reversed(q["calseries"])}
    ids = sorted({ser.get(n, 0) for n in no} - {0})
    if not q["valid"]:
        return out
    x12 = lambda p: (p["long"] * 12, p["lat"] * 12)

    def depth(p):
        x, y = x12(p)
        j, i = int(np.floor(x)), int(np.floor(y))
        z = lambda a, b: default_bathy(1080 - a, b % 4320)
        u, v = x - j, y - i
        return -((z(i, j) * (1 - u) + z(i, j + 1) * u) * (1 - v) + (z(i + 1, j) * (1 - u) + z(i + 1, j + 1) * u) * v)
    coords = np.array([[p["long"], p["lat"], depth(p)] for p in pr]) if q["selected"] else np.full((len(pr), 3), np.nan)
    np.random.seed(case["k"])
    b2 = lambda v: np.array(v, dtype=float).reshape((1, 1)) if v else np.zeros((0, 0))
    for i, s in enumerate(ids):
        m = sorted([p for p in range(len(pr)) if ser.get(no[p], 0) == s], key=lambda p: no[p])
        ix = find_10thetas(sal[:, m], ptmp[:, m], pres[:, m], mptmp[:, m], b2(q["theta_lt"]), b2(q["theta_gt"]), b2([]), b2(q["pres_gt"]),
                           np.array([[.5]]))[2]
        pack = lambda t: np.array([[t[int(v), m[j]] for v in ix[:, j] if v == v] + [NAN] * int(np.isnan(ix[:, j]).sum()) for j in range(len(m))]).T
        y = pack(mapped) / pack(cond)
        e = 100 * np.abs(pack(mapped) - pack(mapped1)) / pack(cond)
        cov = build_cov(pack(ptmp), coords[m, :], cfg)
        args = ["max_no_breaks", (q["max"][i] if len(q["max"]) > 1 and len(ids) > 1 else q["max"][0])]
        if q["breaks"]:
            args = ["breaks", np.array([b for b in q["breaks"][i] if b == b])] + args
        r = fit_cond(np.tile(np.array([[float(no[p]) for p in m]]), (10, 1)), y, e, cov, *args)
        fl = lambda v: np.asarray(v, dtype=float).flatten()
        out["parts"].append({"members": m, "index": ix, "y": y, "e": e, "coords": coords[m, :], "fit": fl(r[1]), "fiterr": fl(r[2]), "slope": fl(r[3]),
                             "slopeerr": fl(r[4]), "mean": fl(r[5]), "rms": fl(r[6]), "coef": fl(r[8]), "breaks": fl(r[9])})
    return out


def check(r, replay):
    import math
    from runner import standard
    from world import layout
    r.tbase()
    rng = r.rng
    cases = []
    for k in range(r.pick(160, 1500)):
        whole = rng.random() < .35     # no gaps: prescribed breaks then are determined by the data
        np_ = rng.choice([5, 7, 9, 12, 16] if whole else [1, 2, 3, 5, 7, 9, 12])
        nl = rng.choice([6, 12, 20])
        whole_numbers = rng.random() < .25        # stored as integers
        first = rng.choice([0, 0, 0, 110, 200, 245])
        nos = [first + n for n in sorted(rng.sample(range(1, 2 * np_ + 2), np_))]
        where = rng.choice(["mid", "mid", "greenwich", "dateline", "west"])
        lo, la = {"mid": 60., "greenwich": 0., "dateline": 180., "west": 300.}[where], rng.choice([-35., 12., 44.])
        drift = [rng.choice([0, 1e-3, -2e-3, 4e-3]), rng.choice([0, 0, 4e-3, -6e-3])]
        turn = nos[len(nos) // 2]
        profiles, mapped = [], []
        for n in nos:
            pres = sorted(float(v) for v in rng.sample(range(5, 1900), nl)) if whole_numbers else sorted(rng.uniform(5, 1900) for _ in range(nl))
            ptmp = [2 + 16 * math.exp(-p / 500.) + rng.gauss(0, .02) for p in pres]
            ptmp.sort(reverse=True)
            true = [34.6 + .03 * (t - 2) for t in ptmp]
            off = drift[0] * n + drift[1] * max(0, n - turn)
            sal = [s - off + rng.gauss(0, 2e-4) for s in true]
            p = {"no": n, "lat": round(la + rng.uniform(-2, 2), 0 if whole_numbers else 4), "long": round((lo + rng.uniform(-4, 4)) % 360, 0 if whole_numbers else 4), "pres": pres, "ptmp": ptmp, "sal": sal}
            h = 1 if whole else rng.random()
            if h < .08:
                p["sal"] = [NAN] * nl
            elif h < .2:
                j = rng.randrange(nl)
                for key in ("sal", "ptmp", "pres"):
                    p[key] = p[key][:j] + [NAN] * (nl - j)
            profiles.append(p)
            ok = [p["ptmp"][i] == p["ptmp"][i] and p["sal"][i] == p["sal"][i] and pres[i] > 100 for i in range(nl)]
            if not whole and rng.random() < .06:
                ok = [False] * nl
            m = {"no": n, "ptmp": [t if a else NAN for t, a in zip(ptmp, ok)], "sal": [s + rng.gauss(0, 1e-3) if a else NAN for s, a in zip(true, ok)],
                 "err": [rng.uniform(.002, .02) if a else NAN for a in ok]}
            if whole or rng.random() > .08:
                mapped.append(m)
        if not whole and rng.random() < .05:
            mapped = []
        order = rng.random()
        if order < .3:
            rng.shuffle(profiles)
        cut = rng.choice(nos)
        style = rng.choice(["one", "one", "two", "two", "three", "none", "odd"])
        ser = {"one": lambda n: 1, "two": lambda n: 1 + (n > cut), "three": lambda n: 1 + (n > cut) + (n > cut + 2), "none": lambda n: 0,
               "odd": lambda n: 2 if n <= cut else 5}[style]
        cs = [{"no": n, "s": 0 if rng.random() < .08 else ser(n)} for n in nos if rng.random() > .05]
        cs = cs or [{"no": nos[0], "s": 1}]
        if rng.random() < .15:
            cs.append({"no": max(nos) + 40, "s": 7})              # a number the source does not have
        of = {s["no"]: s["s"] for s in cs}
        ids = sorted({of.get(n, 0) for n in nos} - {0})
        ns = len(ids)
        mx = [rng.choice([-1, 0, 0, 1, 1, 2, 4])] if rng.random() < .6 else [rng.choice([-1, 0, 1, 2]) for _ in range(max(1, ns + rng.choice([0, 0, 0, 1, -1])))]
        breaks = []
        if ns and (whole or rng.random() < .1):
            rows = ns + rng.choice([0, 0, 0, 1, -1])
            width = rng.choice([1, 1, 2])
            for i in range(rows):
                mem = sorted(n for n in nos if i < ns and of.get(n, 0) == ids[i])
                if whole and len(mem) >= 5:
                    b = [mem[len(mem) // 2] - .5] + ([mem[-2] - .4] if width == 2 and len(mem) > 7 else [])
                else:
                    b = []
                breaks.append((b + [NAN] * width)[:width])
            if rng.random() < .7:
                mx = [max(width, 1) + rng.choice([0, 0, 1])]
        given = [sum(1 for v in row if v == v) for row in breaks]
        valid = (ns <= 1 or len(mx) in (1, ns)) and (not breaks or len(breaks) == ns and
                                                     all(g <= (mx[i] if len(mx) > 1 and ns > 1 else mx[0]) for i, g in enumerate(given)))
        cases.append({"kind": "float", "in": {
            "dtype": rng.choice(["uint16", "smallest", "smallest"]), "names": layout(rng), "dir": rng.choice(["", "/", "pacific", "/a/b/"]), "profiles": profiles, "mapped": mapped, "calseries": cs, "max": [float(v) for v in mx] if rng.random() < .3 else mx,
            "breaks": breaks, "form": rng.choice(["row", "col"]), "selected": bool(mapped), "valid": valid, "theta_lt": [rng.choice([8., 12.])] if not whole and rng.random() < .25 else [],
            "theta_gt": [3.] if not whole and rng.random() < .12 else [], "pres_gt": [200.] if rng.random() < .3 else [],
            "config": {"MAP_USE_PV": rng.choice([0, 1]), "MAPSCALE_LONGITUDE_SMALL": rng.choice([4, 1e-3]), "MAPSCALE_LATITUDE_SMALL": rng.choice([2, 1e-3]),
                       "MAPSCALE_PHI_SMALL": rng.choice([.1, .5])}}})

    def controls(c):
        o = c["out"]
        if "error" in o or c["k"] % 4:
            return
        f = o["file"]
        if any(v == v for v in f["pcond_factor"]):
            yield "factor", dict(o, file=dict(f, pcond_factor=[v + 1e-5 for v in f["pcond_factor"]]))
            yield "salinity", dict(o, file=dict(f, cal_SAL=[[v + 1e-6 for v in p] for p in f["cal_SAL"]]))
        yield "numbers", dict(o, file=dict(f, PROFILE_NO=[v + 1 for v in f["PROFILE_NO"]]))
    return standard(r, "c16", "T_C16", cases, controls, replay=replay)
