"""Histories of calls of the numerical functions: each with several sets of arguments, called again and again in
any order, in one process.  After a call the caller overwrites the arrays that it was given as the result."""
import os
import pickle

NAN = float("nan")


def numbers(x):
    """Shapes and values of nested arrays as one list."""
    import numpy as np
    if isinstance(x, dict):
        return [v for k in sorted(x) for v in numbers(x[k])]
    if isinstance(x, (list, tuple)):
        return [-float(len(x))] + [v for y in x for v in numbers(y)]
    if x is None:
        return [-.5]
    if isinstance(x, str):
        return [float(sum(ord(c) * (i + 1) for i, c in enumerate(x)))]
    a = np.asarray(x)
    if a.dtype == object:
        return [v for y in a.flatten() for v in numbers(y)]
    if a.dtype.kind in "US":
        return [v for y in a.flatten() for v in numbers(str(y))]
    return [float(v) for v in a.shape] + [float(v) for v in a.astype(float).flatten()]


def arrays(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        yield x
        if x.dtype == object:
            for y in x.flatten():
                yield from arrays(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from arrays(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from arrays(y)


def containers(x):
    if isinstance(x, (dict, list)):
        yield x
    if isinstance(x, (dict, list, tuple)):
        for y in x.values() if isinstance(x, dict) else x:
            yield from containers(y)


def overwrite(result, args):
    """What a caller may do with arrays, lists and dictionaries that are its own."""
    import numpy as np
    given = [a for a in arrays(args)]
    for a in arrays(result):
        if a.dtype.kind == "f" and a.flags.writeable and not any(np.shares_memory(a, g) for g in given):
            a[...] = 777.
    theirs = {id(c) for c in containers(args)}
    for c in list(containers(result)):
        if id(c) not in theirs:
            if isinstance(c, dict):
                c["CONFIG_MAX_CASTS"] = 777.
            else:
                c.append(777.)


def arguments(name, rng, w, cfg, casts):
    """A set of arguments of a function; rng is numpy's."""
    import numpy as np
    n = int(rng.integers(6, 14))
    la, lo = rng.uniform(-50, 50), rng.uniform(30, 300)
    lat, long, date, z = la + rng.normal(0, 2, n), lo + rng.normal(0, 3, n), rng.uniform(1990, 2015, n), rng.uniform(800, 5000, n)
    sal = 34.5 + rng.normal(0, .05, n)
    pos = np.column_stack((lat, long, date, z))

    def levels(rows, cols, gaps=.1):
        pres = np.sort(rng.uniform(5, 1900, (rows, cols)), axis=0)
        ptmp = 2 + 17 * np.exp(-pres / 480.) + rng.normal(0, .02, (rows, cols))
        s = 34.6 + .02 * ptmp + rng.normal(0, .005, (rows, cols))
        for a in (pres, ptmp, s):
            a[rng.random((rows, cols)) < gaps] = np.nan
        return s, ptmp, pres
    if name == "find_ellipse":
        return [long[0], lo, 8, lat[0], la, 4, .1, rng.uniform(1e-9, 1e-8), rng.uniform(1e-9, 1e-8)]
    if name == "find_besthist":
        return [lat, long, date, z.reshape(-1, 1) if rng.random() < .3 else z, la, lo, 2005., 3000., 4., 2., 8., 4., .5, .1, 20., 10., int(rng.integers(0, 2)), int(rng.choice([3, 6, 300]))]
    if name == "nearest_neighbour":
        return [np.arange(5.), np.arange(4.), rng.normal(size=(4, 5)), rng.uniform(0, 4), rng.uniform(0, 3)]
    if name == "find_25boxes":
        return [float(rng.uniform(0, 360)), float(rng.uniform(-89, 89)), {"la_wmo_boxes": w.boxes.astype(np.uint16)}]
    if name == "find_10thetas":
        s, t, p = levels(14, 5, .05)
        u = t.copy()
        u[:3] = np.nan
        b = lambda *v: np.array(v, dtype=float).reshape(1, -1) if rng.random() < .4 else np.array([])
        return [s, t, p, u, b(rng.uniform(8, 15)), b(rng.uniform(2, 4)), b(rng.uniform(900, 1800)), b(rng.uniform(10, 400)), np.array([[.5]])]
    if name == "fit_cond":
        k = int(rng.integers(4, 8))
        x = np.tile(np.arange(1., k + 1), (10, 1))
        y = 1 + rng.normal(0, 1e-4) + 1e-5 * x + rng.normal(0, 2e-5, (10, k))
        y[rng.random((10, k)) < .1] = np.nan
        y[0] = 1 + 1e-5 * x[0]
        e = np.abs(rng.normal(4e-5, 1e-5, (10, k)))
        cov = np.exp(-np.abs(np.subtract.outer(np.arange(10. * k), np.arange(10. * k))) * rng.uniform(.2, 1.))
        return [x, y, e, cov] + ([] if rng.random() < .3 else ["max_no_breaks", int(rng.choice([-1, 0, 1]))])
    if name == "signal_variance":
        s = sal.copy()
        s[0] = 0 if rng.random() < .3 else s[0]
        return [s]
    if name == "noise_variance":
        return [sal, lat, long]
    if name == "covar_xyt_pv":
        return [pos, pos[: n // 2], 4., 8., 20., .5, int(rng.integers(0, 2))]
    if name == "covarxy_pv":
        return [pos[0, [0, 1, 3]], pos[:, [0, 1, 3]], 8., 4., .5, int(rng.integers(0, 2))]
    if name == "build_cov":
        s, t, p = levels(4, 3)
        return [t, np.column_stack((long[:3], lat[:3], z[:3])), cfg]
    if name == "brk_pt_fit":
        x = np.sort(rng.uniform(1, 30, n))
        return [x, rng.normal(1, .1, n), np.diag(rng.uniform(.5, 2, n)) if rng.random() < .6 else []] + ([np.sort(rng.uniform(5, 25, int(rng.integers(1, 3))))] if rng.random() < .7 else [])
    if name == "get_topo_grid":
        a, b = rng.uniform(-170, 160), rng.uniform(-80, 75)
        return [a, a + rng.uniform(.3, 3), b, b + rng.uniform(.3, 3), cfg]
    if name in ("get_region_hist_locations", "get_region_data"):
        rows = w.boxes[rng.permutation(casts["rows"])[: int(rng.integers(1, 3))]].copy()
        who = str(rng.choice(["4900101", "4900202", "1900000"]))
        if rng.random() < .5:                 # casts of one kind, of one box
            rows = rows[:1]
            rows[0, 1:] = 0
            rows[0, int(rng.integers(1, 4))] = 1
        if name == "get_region_hist_locations":
            return [rows, who, cfg]
        return [rows, who, cfg, rng.permutation(casts["least"])[:3], rng.uniform(100, 1500, 8)]
    if name == "frontal_constraint_saf":
        s, t, p = levels(20, 8, 0)
        t = t - rng.choice([0, 9], 8)
        f = levels(20, 1, 0)
        la = float(rng.uniform(-55, -35))
        k = 8
        col = lambda v: np.resize(v, k)
        return [cfg, {"grid_sal": s, "grid_ptmp": t, "grid_pres": p, "grid_lat": col(lat) * 0 + la, "grid_long": col(long), "grid_dates": col(date), "grid_z": col(z)},
                {"float_lat": la, "float_long": lo, "float_sal": f[0][:, 0], "float_tmp": f[1][:, 0] - 5, "float_ptmp": f[1][:, 0] - 5, "float_pres": f[2][:, 0]}]
    if name == "map_data_grid":
        return [sal, np.array([[la, lo, 2005., 3000.]]), pos, 8., 4., 20., .003, .001, .5, int(rng.integers(0, 2))]
    if name == "interp_climatology":
        return [*levels(9, 7), *[v[:, 0] for v in levels(6, 1)]]
    if name == "spatial_correlation":
        return [long[0], lo, 8., lat[0], la, 4., date[0], 2005., 20., 1e-8, 2e-8, .5]
    if name == "load":
        return []
    if name == "print_cfg":
        return [dict(cfg, NUMBER=float(rng.integers(0, 99)))]
    if name == "sorter":
        return [np.sort(rng.uniform(0, 30, 3)), np.sort(rng.uniform(0, 30, 8))]
    if name == "wrap_longitude":
        return [rng.uniform(-180, 360, n)]
    if name == "potential_vorticity":
        return [la, z[0]]
    if name == "cal2dec":
        return [int(rng.integers(0, 12)), int(rng.integers(1, 28)), int(rng.integers(0, 24)), int(rng.integers(0, 60))]
    if name == "change_dates":
        return [np.array([20010312141500. + 10000000000 * int(v) for v in rng.integers(0, 14, 5)])]
    if name == "process_profiles_grid_variables":
        return [{"grid_lat": lat, "grid_long": np.where(long > 350, 350, long), "grid_dates": date}, cfg]
    if name == "remove_statical_outliers":
        c = lambda v: v.reshape(-1, 1)
        return [np.array([1, 3]), {"hist_sal": c(sal), "hist_lat": c(lat), "hist_long": c(long), "hist_dates": c(date), "hist_z": c(z)}]
    if name == "columns_of_profiles":
        return [rng.normal(size=(4, 5)), np.arange(1., 6), np.array([[3., 1., 9.]])]
    raise KeyError(name)


WHERE = {"pyowc.core.finders": ["find_ellipse", "find_besthist", "nearest_neighbour", "find_25boxes", "find_10thetas"],
         "pyowc.core.stats": ["fit_cond", "signal_variance", "noise_variance", "covar_xyt_pv", "covarxy_pv", "build_cov", "brk_pt_fit"],
         "pyowc.data.fetchers": ["get_topo_grid", "get_region_hist_locations", "get_region_data", "frontal_constraint_saf"],
         "pyowc.data.wrangling": ["map_data_grid", "interp_climatology"],
         "pyowc.configuration": ["load", "print_cfg"],
         "pyowc.utilities": ["spatial_correlation", "sorter", "wrap_longitude", "potential_vorticity", "cal2dec", "change_dates"]}
NAMES = [n for ns in WHERE.values() for n in ns]


def run(case, box):
    import copy
    import importlib
    import numpy as np
    from checks.c05 import write_file, KINDS
    from histories import tree
    from world import World
    q = case["in"]
    w = World(os.path.join(box, "w"), names=q.get("names"))
    w.copy_saf()
    w.boxes[:, 1:] = 1
    w.write_boxes()
    for b, f in q["clim"].items():
        for t, kind in enumerate(KINDS):
            write_file(w, kind, 1000 + int(b), {"state": "ok" if f[t] else "absent", "casts": f[t]})
    counts = usable(q["clim"])
    rows = [b for b, n in counts.items() if n >= 1]
    casts = {"rows": rows, "least": min(counts[b] for b in rows)}
    cfg = copy.deepcopy(w.config())
    code = {n: getattr(importlib.import_module(m), n) for m, ns in WHERE.items() for n in ns}
    sets = []
    for i, (name, seed, alter) in enumerate(q["sets"]):
        sets.append(arguments(name, np.random.default_rng(seed), w, cfg, casts))
        if alter:
            altered(sets[-1], np.random.default_rng(alter))
    before = tree(w.root)
    out = {"calls": [], "values": []}
    seen = {}

    def value(v):
        k = repr(v)
        if k not in seen:
            out["values"].append(v)
            seen[k] = len(out["values"])
        return seen[k]

    def history(order):
        calls = []
        for s, again in order:
            args = sets[s]
            given = copy.deepcopy(args) if again else args
            np.random.seed(5)
            call = {"name": q["sets"][s][0], "set": s, "before": numbers(given)}
            try:
                r = code[call["name"]](*given)
                call["result"] = numbers(r)
            except Exception as e:
                r = None
                call["error"] = "%s: %s" % (type(e).__name__, e)
                call["result"] = numbers([call["error"]])
            call["after"] = numbers(given)
            overwrite(r, [given, sets])
            calls.append(call)
        return calls
    for order in (q["order"], q["order"][::-1]):          # in a process of its own each
        for call in apart(history, order):
            out["calls"].append(dict(call, **{k: value(call[k]) for k in ("before", "after", "result")}))
    out["files"] = tree(w.root) == before
    return out


def apart(f, *args):
    """f's result, from a new process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as o:
                pickle.dump(f(*args), o)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        b = i.read()
    os.waitpid(pid, 0)
    return pickle.loads(b)


def altered(args, rng):
    """Changes one argument, or one number of it."""
    import numpy as np
    i = int(rng.choice([i for i in range(len(args)) if not isinstance(args[i], (str, dict)) and np.size(args[i])] or [-1]))
    if i < 0:
        return
    a = args[i]
    if isinstance(a, np.ndarray):
        if a.dtype.kind == "f":
            k = rng.random(a.shape) < rng.choice([.1, .5])
            a[k] *= rng.choice([1 + 1e-3, 1.05])
    elif isinstance(a, float):
        args[i] = a * float(rng.choice([1 + 1e-3, 1.3]))
    elif isinstance(a, int):
        args[i] = 1 - a if a in (0, 1) else a + 1


def usable(clim):
    """Casts of each box that are of none of the floats."""
    return {int(b): sum(len(c["pres"]) > 0 and c["owner"] not in ("4900101", "4900202") for t in f for c in t) for b, f in clim.items()}


def cases(r, number, per):
    from histories import casts_around
    from world import layout
    rng = r.rng
    out = []
    for k in range(number):
        names = NAMES if k % 3 == 0 else rng.sample(NAMES, 8)
        sets = []
        for n in names:
            seed = rng.randrange(10 ** 9)
            sets += [[n, seed, 0], [n, seed, rng.randrange(1, 10 ** 9)], [n, rng.randrange(10 ** 9), 0]]
        order = [[i, rng.random() < .5] for i in range(len(sets)) for _ in range(per)]
        rng.shuffle(order)
        clim = {}
        while not any(usable(clim).values()):
            clim = casts_around(rng, rng.uniform(40, 130), rng.uniform(-50, 50), 16, False, ["4900101", "4900202", "5900111"])
        out.append({"kind": "functions", "prop": "C19", "in": {"names": layout(rng), "clim": clim, "sets": sets, "order": order}})
    return out


def controls(c):
    out = c["out"]
    if "error" in out or c["k"] % 4:
        return
    i = len(out["calls"]) - 1
    x = dict(out["calls"][i])
    v = list(out["values"][x["result"] - 1])
    v[-1] = v[-1] * 1.001 + .01 if v[-1] == v[-1] else 1.
    x["result"] = len(out["values"]) + 1
    yield "result", dict(out, calls=out["calls"][:i] + [x], values=out["values"] + [v])
    x = dict(out["calls"][i])
    v = list(out["values"][x["after"] - 1])
    v[-1] = v[-1] * (1 + 1e-12) + 1e-12 if v[-1] == v[-1] else 1.
    x["after"] = len(out["values"]) + 1
    yield "argument", dict(out, calls=out["calls"][:i] + [x], values=out["values"] + [v])
