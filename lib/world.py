"""Synthetic OWC worlds: every file the code under test reads is generated in a scratch directory.

A world is a directory holding the constants (bathymetry, WMO box table, SAF profiles), a climatology
(CTD / bottle / Argo casts grouped by WMO box), float source files, and the output folders.  Nothing in
here judges anything: it only produces inputs, and knows how to read back what the code wrote.
"""
import os
import shutil
import numpy as np
from scipy.io import loadmat, savemat

REPO = os.environ.get("OWC_REPO", "/repo")


def box_index(lat, long):
    """Row (0-based) of the WMO table for a position: columns of 18 boxes, 10x10 degrees, 85N downwards."""
    lo = long % 360
    col = int(lo // 10)
    row = int((90 - lat) // 10)
    return min(col, 35) * 18 + min(max(row, 0), 17)


def stored(a):
    """A matrix as MATLAB stores it: whole numbers as integers of the smallest type that holds them."""
    a = np.asarray(a)
    if a.dtype != float or not a.size or not np.isfinite(a).all() or (a != np.floor(a)).any():
        return a
    for t in (np.uint8, np.int16, np.uint16, np.int32):
        if np.iinfo(t).min <= a.min() and a.max() <= np.iinfo(t).max:
            return a.astype(t)
    return a


# The names of directories and files that the configuration decides: directories by what they hold, the beginnings and ends of the
# names of files, and the names of the constants.
NAMES = {"const": "const", "clim": "clim", "source": "source", "mapped": "mapped", "calib": "calib", "plots": "plots",
         "ctd": "/historical_ctd/ctd_", "bot": "/historical_bot/bot_", "argo": "/historical_argo/argo_",
         "map_": "map_", "cal_": "cal_", "calseries_": "calseries_", "source.mat": ".mat", "mapped.mat": ".mat", "calib.mat": ".mat",
         "wmo_boxes.mat": "wmo_boxes.mat", "TypicalProfileAroundSAF.mat": "TypicalProfileAroundSAF.mat"}
KEYS = {"ctd": "HISTORICAL_CTD_PREFIX", "bot": "HISTORICAL_BOTTLE_PREFIX", "argo": "HISTORICAL_ARGO_PREFIX", "map_": "FLOAT_MAPPED_PREFIX",
        "cal_": "FLOAT_CALIB_PREFIX", "calseries_": "FLOAT_CALSERIES_PREFIX", "source.mat": "FLOAT_SOURCE_POSTFIX",
        "mapped.mat": "FLOAT_MAPPED_POSTFIX", "calib.mat": "FLOAT_CALIB_POSTFIX", "wmo_boxes.mat": "CONFIG_WMO_BOXES",
        "TypicalProfileAroundSAF.mat": "CONFIG_SAF"}
DIRS = {"const": "CONFIG_DIRECTORY", "clim": "HISTORICAL_DIRECTORY", "source": "FLOAT_SOURCE_DIRECTORY", "mapped": "FLOAT_MAPPED_DIRECTORY",
        "calib": "FLOAT_CALIB_DIRECTORY", "plots": "FLOAT_PLOTS_DIRECTORY"}


def layout(rng):
    """Other names than the ones of configuration.load(), for an installation; {} for those."""
    if rng.random() < .35:
        return {}
    out = {}
    if rng.random() < .5:
        out.update(rng.choice([{"mapped": "out", "calib": "out"}, {"source": "floats", "mapped": "floats", "calib": "floats"},
                               {"source": "in/floats/", "mapped": "out/2020.1/mapped", "calib": "out/2020.1/calib/"}, {"plots": "figs", "calib": "map_"}]))
    if rng.random() < .5:
        out.update(rng.choice([{"ctd": "CTD_2019v01/ctd_", "argo": "ARGO_2020V03/argo_"}, {"ctd": "c", "bot": "b", "argo": "a", "clim": "const/ref"},
                               {"bot": "/historical_bot/bottle-", "const": "Constants"}]))
    if rng.random() < .5:
        out.update(rng.choice([{"map_": "mapped-", "calseries_": "series_"}, {"cal_": "", "mapped": "m1", "calib": "c1", "source": "s1"},
                               {"map_": "OW_", "cal_": "OWcal_", "calseries_": "OWser_"}, {"map_": "", "mapped": "m1", "calib": "c1", "source": "s1"}]))
    if rng.random() < .5:
        out.update(rng.choice([{"source.mat": "_src.mat"}, {"mapped.mat": "_2020.mat"}, {"calib.mat": "_v2.mat"},
                               {"source.mat": ".src.mat", "mapped.mat": ".v1.mat", "calib.mat": "-out.mat"}]))
    if rng.random() < .4:
        out.update({"wmo_boxes.mat": "wmo_boxes_argo.mat", "TypicalProfileAroundSAF.mat": "saf_2.mat"})
    return out


class Files:
    """Where an installation has what."""

    def __init__(self, root, names=None):
        self.root = root
        self.names = dict(NAMES, **(names or {}))

    def settings(self):
        """The part of the configuration that says so."""
        out = {key: os.path.join(self.root, self.names[d]) for d, key in DIRS.items()}
        out.update({key: self.names[n] for n, key in KEYS.items() if self.names[n] != NAMES[n]})
        return out

    def path(self, first, *rest):
        """A directory by what it holds, a file in it by its usual name."""
        rest = [self.names.get(r, r) if first == "const" else r for r in rest]
        return os.path.join(self.root, self.names.get(first, first).rstrip("/"), *rest)

    def file(self, what, name, float_dir=""):
        """The file of a float: source, map, ser(ies) or fit."""
        d, pre, post = {"source": ("source", "", "source.mat"), "map": ("mapped", "map_", "mapped.mat"), "ser": ("calib", "calseries_", "calib.mat"),
                        "fit": ("calib", "cal_", "calib.mat")}[what]
        return self.path(d, float_dir.strip("/"), (self.names[pre] if pre else "") + name + self.names[post])


class World(Files):
    """A scratch OWC installation."""

    def __init__(self, root, bathy=None, flags=(1, 1, 1), names=None):
        super().__init__(root, names)
        for sub in DIRS:
            os.makedirs(self.path(sub), exist_ok=True)
        for kind in ("ctd", "bot", "argo"):
            os.makedirs(os.path.dirname(self.clim_file(kind, "")), exist_ok=True)
        self.write_bathy(bathy)
        self.boxes = np.zeros((648, 4))
        self.boxes[:, 0] = 1000 + np.arange(648)
        self.boxes[:, 1:] = flags
        self.write_boxes()
        self.casts = {}

    # -- constants -------------------------------------------------------------------------------
    def write_bathy(self, bathy):
        """bathy(row, col) -> int16 elevation; row 0 is 90N, col 0 is longitude 0."""
        path = self.path("const", "tbase.int")
        shared = os.environ.get("OWC_TBASE")
        if bathy is None and shared and os.path.exists(shared):
            if not os.path.exists(path):
                os.symlink(shared, path)
            return
        rows = np.arange(2160).reshape(-1, 1)
        cols = np.arange(4320).reshape(1, -1)
        if bathy is None:
            bathy = default_bathy
        np.asarray(bathy(rows, cols) + np.zeros((2160, 4320)), dtype="<i2").tofile(path)

    def write_boxes(self):
        savemat(self.path("const", "wmo_boxes.mat"),
                {"la_wmo_boxes": np.asarray(self.boxes, dtype=np.uint16)})

    def copy_saf(self, wide=""):
        """The typical profiles; wide: a side that nearly all profiles belong to."""
        to = self.path("const", "TypicalProfileAroundSAF.mat")
        shutil.copy(os.path.join(REPO, "data/constants/TypicalProfileAroundSAF.mat"), to)
        if wide:
            m = {k: v for k, v in loadmat(to).items() if not k.startswith("__")}
            k = {"N": "S_std", "S": "T_std"}[wide] + wide
            m[k] = m[k] * 0 + 9.
            savemat(to, m)

    # -- climatology -----------------------------------------------------------------------------
    def clim_file(self, kind, box):
        return self.path("clim", self.names[kind].lstrip("/") + str(box) + ".mat")

    def write_clim(self, kind, box, casts):
        """kind: ctd|bot|argo; casts: list of dict(lat,long,date,source,pres,sal,ptmp[,temp])."""
        path = self.clim_file(kind, box)
        if casts is None:
            if os.path.exists(path):
                os.remove(path)
            return path
        nlev = max([len(c["pres"]) for c in casts] + [1])
        mat = {k: np.full((nlev, len(casts)), np.nan) for k in ("pres", "sal", "ptmp", "temp")}
        src = np.empty((1, len(casts)), dtype=object)
        for j, c in enumerate(casts):
            for k in mat:
                v = np.asarray(c.get(k, c["ptmp"]), dtype=float)
                mat[k][:len(v), j] = v
            src[0, j] = c["source"]
        mat["lat"] = np.array([[c["lat"] for c in casts]], dtype=float)
        mat["long"] = np.array([[c["long"] for c in casts]], dtype=float)
        mat["dates"] = np.array([[c["date"] for c in casts]], dtype=float)
        mat = {k: stored(v) for k, v in mat.items()}
        mat["source"] = src
        savemat(path, mat)
        return path

    # -- float source ----------------------------------------------------------------------------
    def write_source(self, name, profiles, float_dir="", dtype=None):
        """profiles: list of dict(no,lat,long,date,pres,sal,ptmp[,temp]) in file order."""
        nlev = max([len(p["pres"]) for p in profiles] + [1])
        mat = {k: np.full((nlev, len(profiles)), np.nan) for k in ("PRES", "SAL", "PTMP", "TEMP")}
        for j, p in enumerate(profiles):
            for k in mat:
                v = np.asarray(p.get(k.lower(), p["ptmp"]), dtype=float)
                mat[k][:len(v), j] = v
        mat["LAT"] = np.array([[p["lat"] for p in profiles]], dtype=float)
        mat["LONG"] = np.array([[p["long"] for p in profiles]], dtype=float)
        mat["DATES"] = np.array([[p["date"] for p in profiles]], dtype=float)
        mat = {k: stored(v) for k, v in mat.items()}
        nos = np.array([[p["no"] for p in profiles]], dtype=float)
        mat["PROFILE_NO"] = stored(nos) if dtype == "smallest" else nos.astype(dtype or np.uint16)
        path = self.file("source", name, float_dir)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        savemat(path, mat)
        return path

    # -- configuration ---------------------------------------------------------------------------
    def config(self, **over):
        from pyowc.configuration import load
        cfg = load()
        cfg.update(self.settings())
        cfg.update(over)
        return cfg

    def load_mapped(self, name, cfg, float_dir="/"):
        return loadmat(self.file("map", name, float_dir))

    def destroy(self):
        shutil.rmtree(self.root, ignore_errors=True)


def default_bathy(r, c):
    return -(3500 + 600 * np.sin(r / 37.0) * np.cos(c / 53.0) + 150 * np.sin((r + 2 * c) / 11.0)).round()


def ocean_profile(rng, pmax=1800, nlev=30, s0=34.6, noise=0.004, warm=18.0):
    """A plausible monotone profile: pressures, potential temperatures, salinities."""
    pres = np.sort(rng.uniform(5, pmax, nlev))
    pres += np.arange(nlev) * 0.01
    ptmp = 2.0 + warm * np.exp(-pres / 500.0) + rng.normal(0, 0.02, nlev)
    ptmp = np.sort(ptmp)[::-1]
    sal = s0 + 0.02 * (ptmp - 2.0) + 0.1 * np.sin(pres / 700.0) + rng.normal(0, noise, nlev)
    return pres, ptmp, sal
