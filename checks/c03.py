"""C03: update_salinity_mapping against Mapping."""
import math
ASSUMPTIONS = ["a run may stop with the message that no data were found when a profile has no cast in the boxes around it",
               "when more casts are inside the ellipse than allowed, the choice of find_besthist is taken as recorded (C08 decides it)",
               "in-situ temperatures of the casts are those of the gsw toolbox", "the bathymetry is made up",
               "mapped values within 1e-7 of the spread of the data, squared errors within 1e-6 of the signal variance"]
EXPECT = ["no position or pressure", "no casts around", "no cast close enough", "casts", "more casts than allowed", "front: unclassed", "front: side",
          "salinity out of range", "outlier", "level with too few casts", "level not wanted", "with vorticity", "across Greenwich", "casts listed"]
NAN = float("nan")
KEYS = ("scale_long_large", "scale_lat_large", "scale_long_small", "scale_lat_small", "scale_phi_large", "scale_phi_small", "scale_age_large",
        "scale_age_small", "use_pv", "use_saf", "p_delta", "p_exclude")


def depth_at(long, lat):
    """Ocean depth of the made-up bathymetry."""
    from world import default_bathy
    import numpy as np
    x, y = long * 12, lat * 12
    j, i = int(np.floor(x)), int(np.floor(y))
    z = lambda a, b: float(default_bathy(1080 - a, b % 4320))
    u, v = x - j, y - i
    return -((z(i, j) * (1 - u) + z(i, j + 1) * u) * (1 - v) + (z(i + 1, j) * (1 - u) + z(i + 1, j + 1) * u) * v)


def config_of(s):
    return {"MAPSCALE_LONGITUDE_LARGE": s["long_large"], "MAPSCALE_LONGITUDE_SMALL": s["long_small"], "MAPSCALE_LATITUDE_LARGE": s["lat_large"],
            "MAPSCALE_LATITUDE_SMALL": s["lat_small"], "MAPSCALE_PHI_LARGE": s["phi_large"], "MAPSCALE_PHI_SMALL": s["phi_small"],
            "MAPSCALE_AGE_LARGE": s["age_large"], "MAPSCALE_AGE_SMALL": s["age_small"], "MAP_USE_PV": s["pv"], "MAP_USE_SAF": s["saf"],
            "MAP_P_DELTA": s["delta"], "MAP_P_EXCLUDE": s["exclude"], "CONFIG_MAX_CASTS": s["max"]}


def recorded(s):
    return [s[k] for k in ("long_large", "lat_large", "long_small", "lat_small", "phi_large", "phi_small", "age_large", "age_small", "pv", "saf", "delta", "exclude")]


def install(w, boxes):
    """Writes the climatology of a world."""
    from checks.c05 import write_file, KINDS
    w.boxes[:, 1:] = 0
    for b in boxes:
        if b["missing"]:
            continue
        w.boxes[b["row"], 1:] = b["flags"]
        for t, kind in enumerate(KINDS):
            write_file(w, kind, 1000 + b["row"], b["files"][t])
    w.write_boxes()


def run(case, box):
    import os
    import gsw
    import numpy as np
    from scipy.io import loadmat
    from world import World, REPO
    from pyowc.calibration import update_salinity_mapping
    from pyowc.core.finders import find_25boxes, find_besthist
    from pyowc.data.fetchers import get_region_hist_locations
    q = case["in"]
    s = q["scales"]
    w = World(os.path.join(box, "w"), names=q.get("names"))
    w.copy_saf()
    install(w, q["boxes"])
    cfg = w.config(**config_of(s))
    pr = q["profiles"]
    fdir = q["dir"]
    w.write_source(q["name"], [dict(p, temp=p["tmp"]) for p in pr], fdir, "smallest")
    os.makedirs(w.path("mapped", fdir.strip("/")), exist_ok=True)
    try:
        update_salinity_mapping(fdir, cfg, q["name"])
    except ValueError as e:
        if "found no data" not in str(e):
            raise
        return {"nodata": True}
    m = w.load_mapped(q["name"], cfg, fdir)
    nos = [float(v) for v in m["la_profile_no"].flatten()]
    out = {"columns": [], "drawn": [], "selected": np.asarray(m["selected_hist"]).reshape(-1, 3) if np.asarray(m["selected_hist"]).size else [],
           "tmp": [], "places": []}
    wmo = loadmat(w.path("const", "wmo_boxes.mat"))
    casts = [c for b in q["boxes"] for f in b["files"] for c in f["casts"]]
    by_lat = {c["lat"]: c["id"] for c in casts}
    for p in pr:
        j = nos.index(float(p["no"]))
        col = lambda k: m[k][:, j]
        out["columns"].append({"sal": col("la_mapped_sal"), "err": col("la_mapsalerrors"), "noise": col("la_noise_sal"), "signal": col("la_signal_sal"),
                               "ptmp": col("la_ptmp"), "settings": [float(m[k].flatten()[j]) for k in KEYS]})
        drawn = []
        if len(casts) > s["max"] and all(x == x for x in (p["lat"], p["long"])):
            try:
                lat, long, date = get_region_hist_locations(find_25boxes(p["long"], p["lat"], wmo), q["name"], cfg)
            except ValueError:
                lat = []
            if len(lat):
                z = np.array([depth_at(x, y) for x, y in zip(long, lat)])
                pl = p["long"] + (360 if (long >= 320).any() and p["long"] <= 20 else 0)
                ix = find_besthist(lat, long, date, z, p["lat"], pl, p["date"], depth_at(p["long"], p["lat"]), s["lat_large"], s["lat_small"],
                                   s["long_large"], s["long_small"], s["phi_large"], s["phi_small"], s["age_large"], s["age_small"], s["pv"], s["max"])
                drawn = [by_lat[float(lat[i])] for i in np.asarray(ix).flatten()]
        out["drawn"].append(drawn)
    for c in casts:
        a = lambda k: np.array(c[k], dtype=float)
        out["places"].append({"id": c["id"], "long": c["long"], "lat": c["lat"]})
        if s["saf"]:
            sa = gsw.SA_from_SP(a("sal"), a("pres"), c["long"], c["lat"])
            out["tmp"].append({"id": c["id"], "pres": c["pres"], "ptmp": c["ptmp"], "sal": c["sal"],
                               "tmp": gsw.t_from_CT(sa, gsw.CT_from_pt(sa, a("ptmp")), a("pres"))})
    if s["saf"]:
        d = loadmat(REPO + "/data/constants/TypicalProfileAroundSAF.mat")
        f = lambda k: d[k].flatten().astype(float)
        out["saf"] = {"deph": f("Deph"), "sn": f("S_meanN"), "tn": f("T_meanN"), "ss": f("S_meanS"), "ts": f("T_meanS"), "dsn": f("S_stdN"),
                      "dtn": f("T_stdN"), "dss": f("S_stdS"), "dts": f("T_stdS")}
    return out


def water(rng, nl, pmax, side=None, s0=34.6, jitter=.02, whole=False):
    """Levels of a plausible profile."""
    p = sorted({round(rng.uniform(5, pmax), 0 if whole else 1) for _ in range(nl)})
    while len(p) < nl:
        p.append(round(p[-1] + rng.uniform(1, 30), 0 if whole else 1))
    if side is None:
        t = [2 + 17 * math.exp(-x / 480.) for x in p]
    else:
        t = [side + .0025 * (300 - x) if x < 1500 else side - 3 - .0003 * (x - 1500) for x in p]
    t = [x + rng.gauss(0, jitter) for x in t]
    if rng.random() < .85:
        t.sort(reverse=True)
    sal = [s0 + .02 * (x - 2) + .08 * math.sin(y / 600.) for x, y in zip(t, p)]
    return {"pres": p, "ptmp": [round(x, 5) for x in t], "sal": sal}


def a_world(rng, ncast, where=None, fronts=False, own=True, name="4900456", whole=False):
    """Boxes with casts around a place, and the place."""
    from world import box_index
    where = where or rng.choice(["mid", "mid", "greenwich", "dateline", "east of Greenwich", "corner"])
    lo = {"mid": rng.uniform(40, 130), "greenwich": rng.uniform(-4, 4) % 360, "dateline": 180 + rng.uniform(-4, 4), "east of Greenwich": rng.uniform(4, 18),
          "corner": 350.}[where]
    la = rng.uniform(-55, -38) if fronts else rng.choice([-1, 1]) * rng.uniform(3, 55)
    s = {"long_large": rng.choice([8, 4, 12]), "long_small": rng.choice([4, 2]), "lat_large": rng.choice([4, 3, 8]), "lat_small": rng.choice([2, 1]),
         "phi_large": rng.choice([.5, .1, 1]), "phi_small": rng.choice([.1, .5]), "age_large": rng.choice([20, 5, 10]), "age_small": rng.choice([10, 2, 5]),
         "pv": rng.choice([0, 0, 1]), "saf": 1 if fronts else 0, "delta": rng.choice([250, 250, 100, 500]), "exclude": rng.choice([100, 0, 400]), "max": 300}
    deg = rng.uniform(-.02, .02)
    files = {}
    spread = rng.choice([.5, .9, 1.3])
    for i in range(ncast):
        side = rng.choice([2., 7., 7.5, 1.]) if fronts else None
        c = water(rng, 10 if whole else rng.choice([6, 10, 14]), rng.choice([900, 1900, 1900]), side, 34.6 + (0 if not fronts else .05 * (side > 3)), whole=whole)
        dx, dy = rng.gauss(0, 1.2 * s["long_large"] * spread), rng.gauss(0, 1.2 * s["lat_large"] * spread)
        x, y = lo + dx, max(-85, min(85, la + dy))
        c["sal"] = [round(v + deg * dx + .01 * dy + rng.gauss(0, .008), 5) for v in c["sal"]]
        if rng.random() < (.02 if whole else .12):
            for k in rng.sample(range(len(c["pres"])), 2):
                c[rng.choice(["pres", "sal", "ptmp"])][k] = NAN
        c.update(lat=round(y, 3) + i * 1e-6, long=round(x % 360 if rng.random() < .8 else (x if x >= 0 else x + 360) - (360 if x > 185 else 0), 0 if whole else 3),
                 date=[rng.randint(1985, 2016), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59)], id="c%d" % i,
                 owner=name if own and rng.random() < .15 else rng.choice(["5900111", "6900222"]))
        b = box_index(c["lat"], c["long"])
        t = rng.choice([0, 1, 2])
        files.setdefault(b, [[], [], []])[t].append(c)
    boxes = []
    for b, f in files.items():
        fl = []
        for t in range(3):
            state = ("ok" if rng.random() < .95 else rng.choice(["damaged", "absent"])) if f[t] else "absent"
            fl.append({"state": state, "casts": f[t], "transposed": False})
        boxes.append({"row": b, "missing": False, "flags": [1 if rng.random() < .93 else 0 for _ in range(3)], "files": fl})
    return boxes, s, lo % 360, la


def off_edges(x, step=10.):
    """Away from box boundaries."""
    m = x % step
    return round(x + (.05 if m < .03 else -.05 if m > step - .03 else 0), 3)


def check(r, replay):
    from runner import standard
    from world import layout
    r.tbase()
    rng = r.rng
    cases = []
    for k in range(r.pick(120, 1300)):
        fronts = k % 6 == 5
        ncast = rng.choice([8, 11, 14, 18, 24] if k % 5 else [30, 40])
        whole = rng.random() < .25                                   # stored as integers
        boxes, s, lo, la = a_world(rng, ncast, fronts=fronts, whole=whole)
        nl = rng.choice([4, 6, 9])
        if rng.random() < .3:
            s["max"] = rng.choice([6, 8, 12])
        nos = rng.sample(range(1, 60), rng.choice([1, 1, 2, 3]))
        profiles = []
        for n in nos:
            p = water(rng, nl, 1800, rng.choice([2., 7., 4.1]) if fronts else None, whole=whole)
            p.update(no=n, lat=off_edges(max(-84, min(84, la + rng.uniform(-1, 1)))), long=off_edges(round((lo + rng.uniform(-1, 1)) % 360) % 360 if whole else (lo + rng.uniform(-1, 1)) % 360),
                     date=round(rng.uniform(2001, 2015), 4))
            p["tmp"] = [round(t + x * 1e-4, 5) for t, x in zip(p["ptmp"], p["pres"])]
            p["sal"] = [round(v + rng.gauss(0, .01), 5) for v in p["sal"]]
            h = rng.random()
            if h < .06:
                p[rng.choice(["lat", "long"])] = NAN
            elif h < .1:
                p["pres"] = [NAN] * nl
            elif h < .16:
                p["long"] = off_edges((p["long"] + 80) % 360)          # nothing around
            elif h < .22:
                p["lat"] = off_edges(p["lat"] + (12 if p["lat"] < 0 else -12) * rng.choice([.7, 1]))
            if rng.random() < (.1 if whole else .5):
                for j in rng.sample(range(nl), rng.choice([1, 2])):
                    p[rng.choice(["sal", "ptmp", "pres"])][j] = NAN
            profiles.append(p)
        allc = [c for b in boxes for f in b["files"] for c in f["casts"]]
        if k % 4 == 1:                                                # one far-off cast
            c = rng.choice(allc)
            c["sal"] = [v + rng.choice([-4, 3, 1]) for v in c["sal"]]
        if k % 9 == 3:                                                # everything too fresh or too salty
            d = rng.choice([-4.75, 5.35])
            for c in allc:
                c["sal"] = [v + d for v in c["sal"]]
        cases.append({"kind": "front" if fronts else "open ocean", "in": {
            "names": layout(rng), "dir": rng.choice(["", "/", "north/", "/a/b/"]), "name": "4900456", "boxes": boxes, "scales": s, "profiles": profiles, "recorded": recorded(s)}})

    def controls(c):
        o = c["out"]
        if "columns" not in o or c["k"] % 6 != 1:
            return
        if any(v == v for f in o["columns"] for v in f["sal"]):
            yield "salinity", dict(o, columns=[dict(f, sal=[v + 1e-5 for v in f["sal"]]) for f in o["columns"]])
            yield "noise", dict(o, columns=[dict(f, noise=[v * 1.01 for v in f["noise"]]) for f in o["columns"]])
            yield "settings", dict(o, columns=[dict(f, settings=[v + 1 for v in f["settings"]]) for f in o["columns"]])
            yield "list", dict(o, selected=[])
    return standard(r, "c03", "T_C03", cases, controls, replay=replay)
