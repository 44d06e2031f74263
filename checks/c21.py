"""C21: what the figures of plot_diagnostics show, against Plots."""
import os

ASSUMPTIONS = ["a figure is what its axes hold when it is saved: lines, bars, bands, annotations, contoured data and limits",
               "the choice of theta levels in the figures is that of find_10thetas (C14)",
               "colours, legends and wording are not judged; the numbers of theta levels in titles and file names are"]
EXPECT = ["all figures", "fewer levels than figures", "east of 180", "whole numbers", "profile without calibration", "theta range", "pressure range",
          "anomalies recomputed", "analysed by the program", "several runs in one process", "figure of the user"]
NAN = float("nan")
CAL = ("cal_SAL", "cal_SAL_err", "sta_SAL", "sta_SAL_err")


def write(files, f):
    """The files an analysed float has."""
    import numpy as np
    from scipy.io import savemat
    from world import stored
    kept = stored if f["stored"] else (lambda v: v)
    place = lambda what: files.file(what, f["name"], f["dir"])
    for what in ("source", "map", "fit"):
        os.makedirs(os.path.dirname(place(what)), exist_ok=True)
    m = lambda k: np.array(f[k], dtype=float).T
    nos = stored(np.array([f["no"]], dtype=float)) if f["stored"] else np.array([f["no"]], dtype=np.uint16)
    savemat(place("source"),
            dict({k.upper(): kept(m(k)) for k in ("pres", "sal", "ptmp")}, TEMP=kept(m("ptmp")), PROFILE_NO=nos,
                 **{k: kept(np.array([f[v]], dtype=float)) for k, v in (("LAT", "lat"), ("LONG", "long"), ("DATES", "date"))}))
    if "casts" in f:                   # the analysis writes the other files
        return
    savemat(place("map"),
            {"la_mapped_sal": m("msal"), "la_mapsalerrors": m("merr"), "la_ptmp": m("mptmp"), "la_noise_sal": m("merr"), "la_signal_sal": m("merr"),
             "la_profile_no": np.array([f["no"]], dtype=float), "selected_hist": np.array(f["hist"], dtype=float)})
    savemat(place("fit"),
            dict({k: m(k) for k in CAL}, **{k: np.array([f[k]], dtype=float) for k in ("pcond_factor", "pcond_factor_err", "sta_mean")},
                 time_deriv=m("cal_SAL")[:1], time_deriv_err=m("cal_SAL")[:1], sta_rms=m("cal_SAL")[:1], fceta=NAN, PROFILE_NO=nos))
    b = f["bounds"]
    one = lambda v: np.array([v], dtype=float) if v else np.zeros((0, 0))
    savemat(place("ser"),
            {"breaks": np.zeros((0, 0)), "max_breaks": 0, "calseries": np.ones((1, len(f["no"]))), "calib_profile_no": nos,
             "use_theta_lt": one(b["theta_lt"]), "use_theta_gt": one(b["theta_gt"]), "use_pres_lt": one(b["pres_lt"]),
             "use_pres_gt": one(b["pres_gt"]), "use_percent_gt": b["percent"]})


def analyse(w, f, cfg):
    """The program's own analysis of a float; what is in the files then."""
    import numpy as np
    from scipy.io import loadmat
    from checks.c05 import write_file, KINDS
    from pyowc.calibration import update_salinity_mapping, calc_piecewisefit
    from pyowc.configuration import set_calseries
    for b, cs in f["casts"].items():
        for t, kind in enumerate(KINDS):
            write_file(w, kind, 1000 + int(b), {"state": "ok" if cs[t] else "absent", "casts": cs[t]})
    np.random.seed(1)
    update_salinity_mapping(f["dir"], cfg, f["name"])
    set_calseries(f["dir"], f["name"], cfg)
    calc_piecewisefit(f["dir"], f["name"], cfg)
    m, c, s = (loadmat(w.file(k, f["name"], f["dir"])) for k in ("map", "fit", "ser"))
    g = {k: v for k, v in f.items() if k != "casts"}
    nos = [float(x) for x in np.asarray(m["la_profile_no"]).flatten()]
    columns = lambda k: [m[k][:, nos.index(n)] for n in f["no"]]
    g.update(msal=columns("la_mapped_sal"), merr=columns("la_mapsalerrors"), mptmp=columns("la_ptmp"), hist=np.asarray(m["selected_hist"], dtype=float).reshape(-1, 3))
    g.update({k: np.asarray(c[k], dtype=float).T for k in CAL})
    g.update({k: np.asarray(c[k], dtype=float).flatten() for k in ("pcond_factor", "pcond_factor_err", "sta_mean")})
    return g


def shapes(const, coast, bathy):
    import shapefile
    os.makedirs(os.path.join(const, "coastline"))
    os.makedirs(os.path.join(const, "bathymetry"))
    with shapefile.Writer(os.path.join(const, "coastline", "ne_10m_coastline.shp"), shapeType=shapefile.POLYLINE) as w:
        w.field("n", "N")
        for parts in coast:
            w.line(parts)
            w.record(1)
    names = "L_0 K_200 J_1000 I_2000 H_3000 G_4000 F_5000 E_6000 D_7000 C_8000 B_9000 A_10000".split()
    for n, parts in zip(names, bathy):
        with shapefile.Writer(os.path.join(const, "bathymetry", "ne_10m_bathymetry_" + n + ".shp"), shapeType=shapefile.POLYGON) as w:
            w.field("n", "N")
            w.poly(parts)
            w.record(1)


def digest(root):
    import hashlib
    r = {}
    for p, _, fs in os.walk(root):
        for f in fs:
            with open(os.path.join(p, f), "rb") as h:
                r[os.path.relpath(os.path.join(p, f), root)] = hashlib.sha1(h.read()).hexdigest()
    return r


def number(text):
    try:
        return float(text)
    except ValueError:
        return NAN


def says(label):
    """What the legend calls something."""
    t = str(label).lower()
    for word, what in (("uncalib", "uncalibrated"), ("mapped", "mapped"), ("2 x", "twice"), ("1 x", "once"), ("1-1", "single"), ("calibrated", "calibrated")):
        if word in t:
            return what
    return ""


def seen(fig, contoured):
    """What a figure holds."""
    import numpy as np
    from matplotlib.collections import LineCollection, PolyCollection
    from matplotlib.container import ErrorbarContainer
    num = lambda v: [float(np.asarray(x).reshape(-1)[0]) for x in np.ma.filled(np.ma.asarray(v).astype(float), np.nan)]
    panels = []
    for a in fig.axes:
        p = {"curves": [], "marks": [], "bars": [], "band": [], "notes": [], "fields": [], "named": [], "title": a.get_title(),
             "xlim": num(a.get_xlim()), "ylim": num(a.get_ylim())}
        for ln in a.lines:
            o = {"x": num(ln.get_xdata(orig=True)), "y": num(ln.get_ydata(orig=True)), "number": number(ln.get_label()), "says": says(ln.get_label())}
            drawn = ln.get_linestyle() not in ("None", "", " ", "none")
            if len(o["x"]) == 1 or not drawn:
                p["marks"].append(o)
            else:
                p["curves"].append(o)
        for c in a.collections:
            if isinstance(c, LineCollection):
                for s in c.get_segments():
                    if len(s) == 2 and np.isfinite(s).all():
                        p["bars"].append(num(np.asarray(s).flatten()))
            elif isinstance(c, PolyCollection):
                for q in c.get_paths():
                    p["band"] += [num(v) for v in q.vertices]
        for t in a.texts:
            if hasattr(t, "xy"):
                p["notes"].append({"number": number(t.get_text()), "x": float(t.xy[0]), "y": float(t.xy[1])})
        for c in a.containers:
            if isinstance(c, ErrorbarContainer) and says(c.get_label()):
                ends = [num(np.asarray(s).flatten()) for b in c.lines[2] for s in b.get_segments() if len(s) == 2 and np.isfinite(s).all()]
                p["named"].append({"says": says(c.get_label()), "bars": ends})
        p["fields"] = contoured.get(id(a), [])
        panels.append(p)
    return panels


def run(case, box):
    import re
    import copy
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    from matplotlib.axes import Axes
    import numpy as np
    from pyowc.plot.dashboard import plot_diagnostics
    from pyowc.core.finders import find_10thetas
    from pyowc.configuration import load
    from world import Files, World
    q = case["in"]
    own = any("casts" in op.get("float", {}) for op in q["ops"])
    files = (World if own else Files)(box, names=q.get("names"))
    plots, const = files.path("plots"), files.path("const")
    under = os.path.relpath(plots, box)
    for d in (plots, const):
        os.makedirs(d, exist_ok=True)
    shapes(const, q["coast"], q["bathy"])
    plt.close("all")
    keep = Figure.savefig, Axes.contourf
    now, contoured, held, fields = [], {}, [], {}

    def savefig(fig, fname, *a, **k):
        now.append([str(fname), seen(fig, contoured)])
        return keep[0](fig, fname, *a, **dict(k, dpi=30))

    def contourf(ax, *a, **k):
        held.append(ax)
        d = [np.ma.filled(np.ma.asarray(v, dtype=float), np.nan) for v in a[:3]]
        if len(d) == 3:
            key = b"|".join(x.tobytes() for x in d)
            if key not in fields:
                fields[key] = [len(fields) + 1, {"x": d[0].flatten(), "y": d[1].flatten(), "z": d[2].copy()}]
            contoured.setdefault(id(ax), []).append(fields[key][0])
        return keep[1](ax, *a, **k)
    out = []
    Figure.savefig, Axes.contourf = savefig, contourf
    try:
        for op in q["ops"]:
            if op["op"] == "close":
                plt.close("all")
                continue
            if op["op"] == "own":           # the user has a figure of his own
                plt.figure()
                plt.plot([1, 2, 3], [1, 2, 1.5])
                continue
            f = op["float"]
            write(files, f)
            cfg = load()
            cfg.update(files.settings())
            cfg.update({"FLOAT_PLOTS_FORMAT": op["format"], "THETA_BOUNDS": op["theta_bounds"]})
            g = f
            if "casts" in f:
                try:
                    g = analyse(files, f, cfg)
                except Exception as e:
                    out.append({"unanalysed": "%s: %s" % (type(e).__name__, e)})
                    continue
            cfg0, before = copy.deepcopy(cfg), digest(box)
            now.clear()
            contoured.clear()
            held.clear()
            fields.clear()
            r = {}
            try:
                if op["nlevels"] == 2 and op["default"]:
                    plot_diagnostics(f["dir"], f["name"], cfg)
                else:
                    plot_diagnostics(f["dir"], f["name"], cfg, levels=op["nlevels"])
            except Exception as e:
                import traceback
                r["error"] = "%s: %s" % (type(e).__name__, e)
                r["trace"] = traceback.format_exc()[-900:]
            after = digest(box)
            r["new"] = sorted(os.path.relpath(k, under) for k in after if after[k] != before.get(k) and k.startswith(under + os.sep))
            r["empty"] = [k for k in r["new"] if os.path.getsize(os.path.join(plots, k)) == 0]
            r["others"] = all(after.get(k) == v for k, v in before.items() if not k.startswith(under + os.sep)) and \
                all(k in before or k.startswith(under + os.sep) for k in after) and cfg == cfg0
            r["there"] = sorted(os.path.relpath(k, under) for k in after if k.startswith(under + os.sep))
            r["fields"] = [v[1] for v in fields.values()]
            figs = []
            for name, panels in now:
                t = [float(x) for p in panels for x in re.findall(r"-?\d+\.?\d*(?:[eE][-+]?\d+)?", p["title"].replace(f["name"], ""))]
                figs.append({"file": os.path.relpath(name, plots), "panels": panels, "numbers": t})
            r["figs"] = figs
            m = lambda k: np.array(g[k], dtype=float).T
            b = f["bounds"]
            t, p, ix, var, th = find_10thetas(m("sal"), m("ptmp"), m("pres"), m("mptmp"), b["theta_lt"], b["theta_gt"], b["pres_lt"], b["pres_gt"], b["percent"])
            r["chosen"] = {"t": np.asarray(t).flatten(), "p": np.asarray(p).flatten(), "index": ix, "var": np.asarray(var).flatten(), "theta": np.asarray(th).flatten()}
            if g is not f:
                r["float"] = g
            out.append(r)
    finally:
        Figure.savefig, Axes.contourf = keep
        plt.close("all")
    return {"runs": out}


def analysed(rng, name, whole):
    """The data in the files of an analysed float."""
    from checks.c14 import series
    n, nl = rng.choice([2, 3, 3, 4, 5, 7]), rng.choice([4, 6, 10, 14])
    f = series(rng, n, nl, rng.choice([60, 300, 900, 900, 2000, 2000]), rng.choice(["plain"] * 4 + ["inversions"] * 3 + ["plateau"]), rng.choice([0, 0, .05, .2]), whole)
    f["mptmp"] = f.pop("map")
    r4 = lambda x: round(x, 4)
    for k in ("msal", "merr") + CAL:
        f[k] = []
    for k in ("pcond_factor", "pcond_factor_err", "sta_mean"):
        f[k] = []
    for i in range(n):
        off, spread = rng.uniform(-.05, .05), rng.choice([.001, .02])
        known = [s == s and t == t and p == p for s, t, p in zip(f["sal"][i], f["ptmp"][i], f["pres"][i])]
        ok = [m == m for m in f["mptmp"][i]]
        far = [rng.random() < .04 for _ in ok]
        f["msal"].append([r4(34.4 + .03 * m + off + rng.gauss(0, spread)) if m == m and not x else NAN for m, x in zip(f["mptmp"][i], far)])
        f["merr"].append([r4(rng.uniform(.002, .04)) if m == m else NAN for m in f["mptmp"][i]])
        cal, sta = rng.random() < .9, rng.random() < .85
        f["pcond_factor"].append(round(1 + rng.uniform(-.002, .002), 6) if cal else NAN)
        f["pcond_factor_err"].append(round(rng.uniform(.00001, .0004), 6) if cal else NAN)
        f["sta_mean"].append(round(1 + rng.uniform(-.002, .002), 6) if sta else NAN)
        o, e = rng.uniform(-.04, .04), rng.uniform(.001, .01)
        g = lambda on, v: [r4(v(j)) if on and known[j] else NAN for j in range(nl)]
        f["cal_SAL"].append(g(cal, lambda j: f["sal"][i][j] + o + .001 * (j % 3)))
        f["cal_SAL_err"].append(g(cal, lambda j: e + .0003 * (j % 4)))
        f["sta_SAL"].append(g(sta, lambda j: f["sal"][i][j] + o + .003 * (j % 2)))
        f["sta_SAL_err"].append(g(sta, lambda j: e + .0006 * (j % 5)))
    no, first = [], rng.choice([0, 1, 1, 5, 97, 250])
    while len(no) < n:
        no.append(first)
        first += rng.choice([1, 1, 1, 2, 7])
    lo, la = rng.choice([rng.uniform(0, 360), 179.5, 359.2, 180.0]), rng.uniform(-70, 70)
    if rng.random() < .3:
        lo -= 180
    dig = 0 if whole else 3
    f.update(name=name, dir=rng.choice(["/", "/", "", "/grp/"]), no=no, stored=whole,
             lat=[round(la + rng.uniform(-2, 2), dig) for _ in no], long=[round(lo + (k - n / 2) * .4 if not whole else lo + k - n // 2, dig) for k in range(n)],
             date=[round(2010 + k / 36., 4) for k in range(n)])
    if min(f["long"]) < 0 and max(f["long"]) > 180 or not whole and rng.random() < .5:
        f["long"] = [x % 360 for x in f["long"]]
    if rng.random() < .1:
        f["lat"][rng.randrange(1, n)] = NAN
    f["hist"] = [[round((lo + rng.uniform(-5, 5)) % 360, 2), round(la + rng.uniform(-4, 4), 2), rng.choice(no)] for _ in range(rng.choice([1, 4, 12]))]
    return f


def floating(rng, name):
    """A float and casts around it, for the program to analyse."""
    from checks.c03 import water
    from histories import casts_around
    from world import box_index
    lo, la = rng.choice([rng.uniform(20, 340), rng.uniform(20, 340), 179.7, 359.8]), rng.choice([-1, 1]) * rng.uniform(5, 55)
    n, nl = rng.choice([2, 3, 4, 6]), rng.choice([8, 12, 16])
    f = {"name": name, "dir": rng.choice(["/", "", "/grp/"]), "no": sorted(rng.sample(range(1, 12), n)), "stored": False, "sal": [], "ptmp": [], "pres": [], "lat": [], "long": [], "date": []}
    off = rng.uniform(-.1, .1)
    for k in range(n):
        p = water(rng, nl, 1800)
        for x in ("pres", "ptmp"):
            f[x].append(p[x])
        f["sal"].append([NAN if rng.random() < .03 else round(v + off + .01 * k + rng.gauss(0, .004), 4) for v in p["sal"]])
        f["lat"].append(round(la + rng.uniform(-.8, .8), 3))
        f["long"].append(round((lo + k * .1) % 360, 3))
        f["date"].append(round(2005 + k / 36., 4))
    if rng.random() < .2:
        f["sal"][rng.randrange(n)] = [NAN] * nl
    f["casts"] = casts_around(rng, lo, la, 20, False, ["x%s" % name, "5900111"])
    f["bounds"] = {"theta_lt": [], "theta_gt": [], "pres_lt": [], "pres_gt": [], "percent": .5}
    return f


def bounded(rng, f):
    """Ranges for the theta levels that leave most of the levels usable, mostly."""
    from checks.c14 import bounds
    for k in range(20):
        tl, tg = bounds(rng, f, "theta", "ptmp") if rng.random() < .6 else ([], [])
        pl, pg = bounds(rng, f, "pres", "pres") if rng.random() < .5 else ([], [])
        left = lambda x, lt, gt: not (lt and gt and lt[0] < gt[0] and lt[0] < x < gt[0] or (lt and not (gt and lt[0] < gt[0]) and x > lt[0])
                                      or (gt and not (lt and lt[0] < gt[0]) and x < gt[0]))
        good = sum(1 for i in range(len(f["no"]))
                   if sum(left(t, tl, tg) and left(p, pl, pg) and m == m for t, p, m in zip(f["ptmp"][i], f["pres"][i], f["mptmp"][i])) >= 3)
        if good >= 2 or k == 19:
            return {"theta_lt": tl, "theta_gt": tg, "pres_lt": pl, "pres_gt": pg, "percent": rng.choice([.5, .5, .25, .1])}


def plot(rng, f):
    b = rng.choice([[[0, 5], [5, 20]], [[0, 5], [5, 20]], [[2, 8]], [[0.5, 3.5], [3, 10], [10, 30]]])
    return {"op": "plot", "float": f if "casts" in f else dict(f, bounds=bounded(rng, f)), "nlevels": rng.choice([2, 2, 2, 1, 3]), "default": rng.random() < .7,
            "format": rng.choice(["png", "png", "eps", "pdf", "svg"]), "theta_bounds": b, "bound_text": [str(x) for x in b]}


def check(r, replay):
    from runner import standard, Machinery
    from world import layout
    rng = r.rng
    coast = [[[[-10, -10], [10, 10], [20, 0]]], [[[100, 0], [150, 50]], [[-60, 0], [-50, 5], [-40, 40]]]]
    sea = [[[0, 0], [0, 10], [10, 10], [10, 0], [0, 0]]]
    bathy = [[[[x + k for x in p] for p in ring] for ring in [sea[0]]] for k in range(12)]
    histories = r.tlc("WindowsMC", cfg="WindowsMC.cfg", what="figures of several floats and of the user in one process").get("H", [])
    r.tlc("WindowsMC", cfg="WindowsBad.cfg", check=False, workers=1, what="a figure drawn into the current window: a violation is expected")
    if "OwnContentOnly" not in r.last_log:
        raise Machinery("Windows does not find the shared window: " + r.last_log[-500:])
    histories = sorted(set(map(tuple, histories)))
    histories = [h for h in histories if next(x for x in h if x in "AB") == "A"]
    cases = []

    def one(ops, program=False):
        fs, out = {}, []
        for o in ops:
            if o in ("close", "own"):
                out.append({"op": o})
            else:
                if o not in fs and program:
                    fs[o] = floating(rng, "49%05d" % rng.randint(0, 99999))
                if o not in fs:
                    fs[o] = analysed(rng, rng.choice(["390%04d", "Q%03d", "float.%02d"]) % rng.randint(0, 99), rng.random() < .3)
                    fs[o]["name"] += "" if o == "A" else "b"
                out.append(plot(rng, fs[o]))
        cases.append({"kind": "plots", "in": {"names": layout(rng), "coast": coast, "bathy": bathy, "ops": out}})
    for h in histories * r.pick(1, 3):
        one(h)
    for _ in range(r.pick(34, 220)):
        one(["A"])
    for _ in range(r.pick(12, 70)):
        one(rng.choice([["A"], ["A"], ["A", "B"], ["own", "A"]]), True)

    def controls(c):
        import copy
        o = c["out"]
        if c["k"] % 7 or "error" in o or any("error" in x or "unanalysed" in x for x in o["runs"]):
            return
        last = [q for q in c["in"]["ops"] if q["op"] == "plot"][-1]
        if sum(1 for t in o["runs"][-1]["chosen"]["t"] if t == t) < last["nlevels"]:
            return
        for tag, f in CONTROLS.items():
            x = copy.deepcopy(o)
            if f(x["runs"][-1]):
                yield tag, x
    return standard(r, "c21", "T_C21", cases, controls, replay=replay, limit=120)


def at(run, kind):
    return next(g for g in run["figs"] if kind in g["file"])


def swap_curve(run, kind):
    for p in at(run, kind)["panels"]:
        for c in p["curves"]:
            k = [i for i, y in enumerate(c["y"]) if y == y]
            if len(c["y"]) > 2 and k:
                c["y"][k[0]] += .01
                return True
    return False


def exchange_names(run):
    cs = [c for p in at(run, "salinity_variance_1")["panels"] for c in p["curves"] if c["says"] and any(y == y for y in c["y"])]
    a, b = [next((c for c in cs if c["says"] == w), None) for w in ("uncalibrated", "mapped")]
    if not a or not b:
        return False
    a["says"], b["says"] = b["says"], a["says"]
    return True


CONTROLS = {
    "trajectory moved": lambda r: swap_curve(r, "trajectory"),
    "levels moved": lambda r: swap_curve(r, "salinity_variance_1"),
    "factor moved": lambda r: swap_curve(r, "salinity_curve"),
    "profiles moved": lambda r: swap_curve(r, "salinity_profile"),
    "figure missing": lambda r: r["figs"].pop(),
    "other file": lambda r: r.update(others=False) or True,
    "two figures exchanged": lambda r: [a.update(panels=b["panels"]) for a, b in [(at(r, "_trajectory"), at(r, "salinity_curve"))]],
    "names exchanged": lambda r: exchange_names(r),
    "panel missing": lambda r: at(r, "salinity_curve")["panels"].pop(),
}
