"""Histories of the analysis: from the abstract ones that TLC generates from Workflow to recorded ones.

concretise()  gives an abstract history two floats, casts, configurations and profiles
run()         carries it out on the real code: the program's steps in long-lived forked processes ("workers"),
              the operator's steps on the files, and each profile and each fit once more alone in a new process
"""
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import time
from world import layout

NAN = float("nan")
NAMES = {"a": "4900101", "b": "4900202"}
SETTING_KEYS = ("scale_long_large", "scale_lat_large", "scale_long_small", "scale_lat_small", "scale_phi_large", "scale_phi_small", "scale_age_large",
                "scale_age_small", "use_pv", "use_saf", "p_delta", "p_exclude")
ARRAYS = {"sal": "la_mapped_sal", "err": "la_mapsalerrors", "noise": "la_noise_sal", "signal": "la_signal_sal", "ptmp": "la_ptmp"}
BOUNDS = ("theta_lt", "theta_gt", "pres_lt", "pres_gt")


# -- concrete data ------------------------------------------------------------------------------------

def casts_around(rng, lo, la, n, fronts, owners, only_ctd=False, whole=False):
    """n casts close to a place, by box and type; the first one is next to it."""
    from checks.c03 import water
    from world import box_index
    files = {}
    for i in range(n):
        side = rng.choice([2., 7., 7.5, 1.]) if fronts else None
        c = water(rng, 6 if whole else rng.choice([6, 9]), rng.choice([900, 1900, 1900]), side, 34.6 + (0 if not fronts else .05 * (side > 3)), whole=whole)
        s = .3 if i == 0 else 1.
        x, y = lo + s * rng.gauss(0, 3), la + s * rng.gauss(0, 2)
        c["sal"] = [round(v + .01 * (x - lo) + .01 * (y - la) + rng.gauss(0, .008), 5) for v in c["sal"]]
        c.update(lat=round(max(-85, min(85, y)), 3) + i * 1e-6, long=round(x % 360, 0 if whole else 3), id="c%d" % i, owner=rng.choice(owners),
                 date=[rng.randint(1985, 2016), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59)])
        t = 0 if i == 0 or only_ctd else rng.choice([0, 1, 2, 2, 2])
        files.setdefault(box_index(c["lat"], c["long"]), [[], [], []])[t].append(c)
    return {str(b): f for b, f in files.items()}


def profile(rng, lo, la, fronts, unplaced=.08, undata=.08, whole=False):
    from checks.c03 import water, off_edges
    nl = rng.choice([3, 4, 5, 6])
    p = water(rng, nl, 1800, rng.choice([2., 7., 4.1, 4.2]) if fronts else None, whole=whole)
    p.update(lat=off_edges(la + rng.uniform(-.8, .8)), long=off_edges(round((lo + rng.uniform(-.8, .8)) % 360) % 360 if whole else (lo + rng.uniform(-.8, .8)) % 360), date=round(rng.uniform(2001, 2015), 4), good=True)
    p["temp"] = [round(t + x * 1e-4, 5) for t, x in zip(p["ptmp"], p["pres"])]
    p["sal"] = [round(v + rng.gauss(0, .01), 5) for v in p["sal"]]
    h = rng.random()
    if h < unplaced:
        p[rng.choice(["lat", "long"])] = NAN
    elif h < unplaced + undata:
        k = rng.choice(["sal", "temp", "pres"])
        p[k] = [NAN] * nl
        p["good"] = False
        if k == "temp" and rng.random() < .4:
            p["ptmp"] = [NAN] * nl
    elif h < unplaced + undata + .03:
        p["ptmp"] = [NAN] * nl
    elif rng.random() < .3:
        p[rng.choice(["sal", "ptmp"])][rng.randrange(nl)] = NAN
    return p


def configuration(rng, saf):
    return {"long_large": rng.choice([8, 6, 12]), "long_small": rng.choice([4, 2]), "lat_large": rng.choice([4, 3, 8]), "lat_small": rng.choice([2, 1]),
            "phi_large": rng.choice([.5, .1, 1]), "phi_small": rng.choice([.1, .5]), "age_large": rng.choice([20, 10]), "age_small": rng.choice([10, 5]),
            "pv": rng.choice([0, 0, 1]), "saf": rng.choice([0, 1, 1]) if saf else 0, "delta": rng.choice([250, 100, 500]), "exclude": rng.choice([100, 0, 400]),
            "max": rng.choice([300, 300, 8, 11])}


def concretise(rng, prop, abstract, undata=.08):
    """abstract: a history of WorkflowGen."""
    fronts = rng.random() < .25
    lo = rng.choice([rng.uniform(40, 130), rng.uniform(40, 130), 180 + rng.uniform(-3, 3), rng.uniform(-3, 3) % 360, rng.uniform(21, 30)])
    la = rng.uniform(-55, -38) if fronts else rng.choice([-1, 1]) * rng.uniform(5, 55)
    nos = sorted(rng.sample(*rng.choice([(range(1, 250), 4), (range(1, 600), 4), (range(1, 12), 4), (range(1, 12), 4), (range(246, 262), 4)])))
    no = lambda n: nos[n - 1]
    owners = [NAMES["a"], NAMES["b"], "5900111", "6900222"]
    whole = rng.random() < .25                 # stored as integers
    clims = {"1": casts_around(rng, lo, la, rng.choice([13, 16]), fronts, owners, whole=whole), "2": casts_around(rng, lo, la, rng.choice([12, 15]), fronts, owners),
             "3": casts_around(rng, lo, la, rng.choice([1, 3]), fronts, owners, True) if rng.random() < .6 else casts_around(rng, lo, la, 14, fronts, owners)}
    tables = {v: {"flags": {b: [1] + [1 if v == "1" or rng.random() < .7 else 0 for _ in range(2)] for b in clims[v]}, "wide": rng.choice(["", "N", "S"])} for v in clims}
    cfgs = {}
    for v in "123":
        cfgs[v] = configuration(rng, fronts)
        while any(cfgs[v] == cfgs[u] for u in cfgs if u != v):
            cfgs[v] = configuration(rng, fronts)
    profiles = {f: {str(n): {str(v): profile(rng, lo, la, fronts, undata=undata, whole=whole) for v in (1, 2)} for n in nos} for f in "ab"}
    steps = []
    for a in abstract:
        s = dict(a)
        if "list" in s:
            s["list"] = [{"no": no(e["no"]), "ver": e["ver"]} for e in s["list"]]
            s["rows"] = rng.choice([1, 1, 1, 5, 6, 7])                # at least the levels of its profiles
        if "cut" in s:
            s["cut"] = no(s["cut"])
        if s["do"] == "edit" or s["do"] == "bounds":
            s["form"] = rng.choice(["row", "column", "plain"])
        if s["do"] == "bounds":
            after = rng.choice([0, .5])
            s["set"] = dict(s["set"], breaks=[[no(n) + after for n in row] for row in s["set"]["breaks"]])
        if s["do"] in ("map", "series", "fit", "fail"):
            s["proc"] = rng.choice([0, 0, 1])
        if s["do"] == "both":
            s["proc"] = rng.choice([0, 1])
            s["schedule"] = schedule(rng)
        if s["do"] == "fail":
            s["how"] = rng.choice(["exception", "exception", "kill", "environment", "unreadable"] + (["environment", "environment"] if s["what"] == "fit" else ["exception"]))
            s["frac"] = rng.random()
            s["where"] = rng.choice(["any", "any", "end", "start"])
            s["kind"] = rng.choice(["RuntimeError", "MemoryError", "KeyboardInterrupt", "OSError"])
            s["shut"] = rng.choice({"map": ["source", "mapped", "mapped", "boxes"], "series": ["source", "series", "series"], "fit": ["source", "mapped", "series"]}[s["what"]])
            s["miss"] = rng.choice({"map": ["source", "bathymetry", "boxes"], "series": ["source"], "fit": ["source", "mapped", "series", "bathymetry"]}[s["what"]])
        steps.append(s)
    return {"kind": "history", "prop": prop, "in": {
        "nos": nos, "fronts": fronts, "dtype": rng.choice(["uint16", "float64", "int32", "smallest", "smallest"]),
        "dir": rng.choice(["", "/", "north/"]), "names": layout(rng), "clims": clims, "tables": tables, "cfgs": cfgs, "profiles": profiles, "steps": steps}}


def schedule(rng):
    """Two runs at the same time: freely, or one of them stops somewhere until the other has ended."""
    kind = rng.choice(["together", "line", "reading", "writing", "writing"])
    return {"kind": kind, "first": rng.choice("ab"), "n": {"together": 0, "line": int(10 ** rng.uniform(0, 4.5)), "reading": rng.randint(1, 8), "writing": rng.choice([1, 1, 1, 2, 2, 3, 4])}[kind]}


def runs(a):
    """The runs of the program in a step: (float, what)."""
    return [(a["f"], a["do"])] if a["do"] in ("map", "series", "fit") else [("a", a["a"]), ("b", a["b"])] if a["do"] == "both" else []


# -- processes ------------------------------------------------------------------------------------------

class Worker:
    """A process that carries out program steps one after the other."""

    def __init__(self, cwd):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                os.close(w1), os.close(r2)
                os.makedirs(cwd, exist_ok=True)
                os.chdir(cwd)
                serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1), os.close(w2)
        self.w, self.r = w1, r2

    def send(self, *job):
        b = pickle.dumps(job)
        try:
            os.write(self.w, len(b).to_bytes(8, "little") + b)
        except BrokenPipeError:
            pass

    def answer(self, limit=60):
        b = b""
        end = time.time() + limit
        while len(b) < 8 or len(b) < 8 + int.from_bytes(b[:8], "little"):
            if not select.select([self.r], [], [], max(0, end - time.time()))[0]:
                return {"error": "no result within %d s" % limit, "gone": True}
            x = os.read(self.r, 1 << 20)
            if not x:
                return {"error": "the process ended", "gone": True}
            b += x
        return pickle.loads(b[8:])

    def ready(self, limit):
        return bool(select.select([self.r], [], [], limit)[0])

    def close(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)


def serve(r, w):
    while True:
        b = b""
        while len(b) < 8 or len(b) < 8 + int.from_bytes(b[:8], "little"):
            x = os.read(r, 1 << 20)
            if not x:
                return
            b += x
        job = pickle.loads(b[8:])

        def tell(x):
            out = pickle.dumps(x)
            out = len(out).to_bytes(8, "little") + out
            while out:
                out = out[os.write(w, out):]

        def pause():
            tell({"paused": True})
            n = b""
            while len(n) < 8 or len(n) < 8 + int.from_bytes(n[:8], "little"):
                x = os.read(r, 1)
                if not x:
                    os._exit(0)
                n += x
        tell(do(*job, pause=pause))


def alone(*job, limit=60):
    """The same in a new process."""
    wk = Worker(job[-1]["cwd"])
    wk.send(*job)
    out = wk.answer(limit)
    wk.close()
    return out


class Events:
    """Stops a run at its n-th opening of a file of the site for reading, or at its n-th change of files there."""
    now = None

    def __init__(self, kind, n, pause, root):
        self.kind, self.n, self.pause, self.root, self.seen = kind, n, pause, root + os.sep, 0
        if not Events.now:
            sys.addaudithook(Events.hook)
        Events.now = self

    @staticmethod
    def hook(event, args):
        e = Events.now
        if not isinstance(e, Events) or event not in ("open", "os.rename", "os.remove", "os.mkdir", "os.link", "os.symlink", "os.truncate", "shutil.copyfile", "shutil.move"):
            return
        if isinstance(args[0], (str, bytes, os.PathLike)) and os.path.abspath(os.fsdecode(args[0])).startswith(e.root):
            writes = event != "open" or bool(args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            if writes == (e.kind == "writing"):
                e.seen += 1
                if e.seen == e.n:
                    Events.now = True                    # the hook stays
                    e.pause()


class Unreadable:
    """Opening a file for reading fails."""
    path = None
    hooked = False

    @staticmethod
    def hook(event, args):
        if event == "open" and Unreadable.path and isinstance(args[0], (str, bytes, os.PathLike)) and not args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) \
                and os.path.abspath(os.fsdecode(args[0])) == Unreadable.path:
            raise {0: OSError(5, "Input/output error", Unreadable.path), 1: PermissionError(13, "Permission denied", Unreadable.path)}[len(Unreadable.path) % 2]


def do(what, q, pause=None):
    """One program step."""
    import numpy as np
    from pyowc.calibration import update_salinity_mapping, calc_piecewisefit
    from pyowc.configuration import set_calseries
    cfg = dict(q["cfg"])
    before = pickle.dumps(sorted(cfg.items()))
    fault = q.get("fault")
    call = {"map": lambda: update_salinity_mapping(q["dir"], cfg, q["name"]), "series": lambda: set_calseries(q["dir"], q["name"], cfg),
            "fit": lambda: calc_piecewisefit(q["dir"], q["name"], cfg)}[what]
    out = {}
    if q.get("count"):
        # in a copy of this process: how many lines it runs, and up to which the output is as before
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                t = Tracer(watch=q["count"])
                t.run(call)
                os.write(w, ("%d %d" % (t.n, t.last)).encode())
            finally:
                os._exit(0)
        os.close(w)
        got = os.read(r, 100).decode()
        os.close(r)
        os.waitpid(pid, 0)
        return {"lines": [int(x) for x in got.split()] if got else [0, 0]}
    try:
        if q.get("pause"):
            p = q["pause"]
            if p["kind"] == "line":
                Tracer(at=p["n"], kind=pause).run(call)
            else:
                e = Events(p["kind"], p["n"], pause, q["root"])
                try:
                    call()
                finally:
                    Events.now = True
        elif q.get("unreadable"):
            if not Unreadable.hooked:
                sys.addaudithook(Unreadable.hook)
                Unreadable.hooked = True
            Unreadable.path = q["unreadable"]
            try:
                call()
            finally:
                Unreadable.path = None
        elif fault:
            t = Tracer(at=fault["n"], kind=fault["kind"])
            try:
                t.run(call)
            finally:
                out["fired"] = t.fired
        else:
            call()
    except BaseException as e:
        import traceback
        out["error"] = "%s: %s" % (type(e).__name__, e)
        out["trace"] = traceback.format_exc()[-700:]
    out["config"] = pickle.dumps(sorted(cfg.items())) == before
    return out


class Tracer:
    """Counts the lines run in pyowc, and stops the run at one of them."""

    def __init__(self, at=-1, kind=None, watch=None):
        self.at, self.kind, self.watch = at, kind, watch
        self.n = self.last = 0
        self.fired = False
        self.root = os.path.join(os.environ["OWC_REPO"], "pyowc") + os.sep
        if watch:                          # only in a copy of the process: hooks stay
            sys.addaudithook(self.hook)

    def hook(self, event, args):
        """Opening the output for writing, or moving a file to its place."""
        if event == "open" and isinstance(args[0], str) and args[2] & (os.O_WRONLY | os.O_RDWR) and os.path.abspath(args[0]) == self.watch:
            self.last = self.n
        elif event == "os.rename" and os.path.abspath(str(args[1])) == self.watch:
            self.last = self.n

    def stat(self):
        try:
            s = os.stat(self.watch)
            return s.st_mtime_ns, s.st_size, s.st_ino
        except OSError:
            return None

    def sample(self):
        s = self.stat()
        if s != self.seen:
            self.seen = s
            self.last = max(self.last, self.sampled)     # not before the last look
        self.sampled = self.n

    def run(self, call):
        if self.watch:
            self.seen, self.sampled = self.stat(), 0
        sys.settrace(self.enter)
        try:
            call()
        except BaseException:
            if self.at > 0:
                raise
        finally:
            sys.settrace(None)
        if self.watch:
            self.sample()

    def enter(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(self.root) else None

    def line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at:
                self.fired = True
                if self.kind == "kill":
                    os._exit(9)
                sys.settrace(None)
                if callable(self.kind):
                    self.kind()
                    return None
                raise {"RuntimeError": RuntimeError, "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "OSError": OSError}[self.kind]("planted")
            if self.watch and not self.n & 255:
                self.sample()
        return self.line


# -- files ------------------------------------------------------------------------------------------------

def flat(x):
    import numpy as np
    x = np.asarray(x)
    if x.dtype == object:
        return [v for y in x.flatten() for v in flat(y)]
    return [float(v) for v in x.flatten()]


def read_mapped(path):
    import numpy as np
    from scipy.io import loadmat
    try:
        m = loadmat(path)
        nos = flat(m["la_profile_no"])
        if "la_mapsalerrors" not in m and "la_map_sal_errors" in m:
            m["la_mapsalerrors"] = m["la_map_sal_errors"]
        widths = [np.asarray(m[k]).shape[1] for k in ARRAYS.values()] + [np.asarray(m[k]).size for k in SETTING_KEYS if k in m]
        one = lambda k, j: float(m[k].flatten()[j]) if k in m and j < m[k].size else NAN
        cols = [dict({k: [float(v) for v in m[x][:, j]] if j < m[x].shape[1] else [] for k, x in ARRAYS.items()}, settings=[one(k, j) for k in SETTING_KEYS])
                for j in range(len(nos))]
        sel = np.asarray(m["selected_hist"], dtype=float)
        return {"readable": True, "nos": nos, "widths": widths, "cols": cols, "selected": sel.reshape(-1, 3).tolist() if sel.size else []}
    except Exception as e:
        return {"readable": False, "why": str(e)[:200]}


def read_series(path):
    from scipy.io import loadmat
    try:
        s = loadmat(path)
        b = s["breaks"]
        return {"readable": True, "nos": flat(s["calib_profile_no"]), "series": flat(s["calseries"]), "max": flat(s["max_breaks"]),
                "breaks": [[float(v) for v in r] for r in b] if b.size else [], "percent": flat(s["use_percent_gt"]), **{k: flat(s["use_" + k]) for k in BOUNDS}}
    except Exception as e:
        return {"readable": False, "why": str(e)[:200]}


def read_fit(path):
    from scipy.io import loadmat
    try:
        m = {k: flat(v) for k, v in loadmat(path).items() if not k.startswith("__")}
        if m["fbreaks"]:               # errors of fits with breaks are estimated with random numbers
            m = {k: v for k, v in m.items() if k not in ("cal_SAL_err", "pcond_factor_err", "cal_COND_err", "time_deriv_err")}
        return {"readable": True, "values": m}
    except Exception as e:
        return {"readable": False, "why": str(e)[:200]}


def signature(path):
    """Content of a file; of the shared bathymetry only size and time."""
    try:
        if os.path.islink(path):
            s = os.stat(path)
            return "%d %d" % (s.st_mtime_ns, s.st_size)
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return None


def tree(root):
    return {os.path.join(d, n): signature(os.path.join(d, n)) for d, _, ns in os.walk(root) for n in ns}


def repo_stats():
    out = {}
    for d, ds, ns in os.walk(os.environ["OWC_REPO"]):
        if d.endswith("/.git"):
            ds[:] = []
            continue
        ds[:] = [x for x in ds if x not in (".git", "__pycache__", ".pytest_cache")]
        for n in ns:
            try:
                s = os.lstat(os.path.join(d, n))
                out[os.path.join(d, n)] = (s.st_mtime_ns, s.st_size)
            except OSError:
                pass
    return out


# -- a history ----------------------------------------------------------------------------------------------

class Site:
    """One installation with its files and workers."""

    def __init__(self, root, q):
        from world import World
        self.q = q
        self.w = World(root, names=q.get("names"))
        if q["fronts"]:
            self.w.copy_saf()
        self.w.boxes[:, 1:] = 1
        self.w.write_boxes()
        self.dir = q["dir"].strip("/")
        for d in ("source", "mapped", "calib", "plots"):
            os.makedirs(self.w.path(d, self.dir), exist_ok=True)
        self.clim = 1
        self.cfg = 1
        self.write_clim()
        self.workers = [None, None]

    def worker(self, i):
        if self.workers[i] is None:
            self.workers[i] = Worker(self.w.path("cwd"))
        return self.workers[i]

    def drop(self, i):
        if self.workers[i]:
            self.workers[i].close()
        self.workers[i] = None

    def close(self):
        for i in (0, 1):
            self.drop(i)

    def write_clim(self):
        from checks.c05 import write_file, KINDS
        boxes = {b for v in self.q["clims"].values() for b in v}
        for b in boxes:
            now = self.q["clims"][str(self.clim)].get(b, [[], [], []])
            for t, kind in enumerate(KINDS):
                write_file(self.w, kind, 1000 + int(b), {"state": "ok" if now[t] else "absent", "casts": now[t]})
        now = self.q["tables"][str(self.clim)]
        self.w.boxes[:, 1:] = 1
        for b, flags in now["flags"].items():
            self.w.boxes[int(b), 1:] = flags
        self.w.write_boxes()
        if self.q["fronts"]:
            self.w.copy_saf(now["wide"])

    def config(self, cfg=None, **over):
        from checks.c03 import config_of
        return self.w.config(**config_of(self.q["cfgs"][str(cfg or self.cfg)]), **over)

    def write_source(self, f, entries, where=None, rows=None):
        ps = []
        for e in entries:
            p = dict(self.q["profiles"][f][str(e["no"])][str(e["ver"])])
            p["no"] = e["no"]
            ps.append(p)
        rows = max([rows or 1] + [len(p["pres"]) for p in ps])
        pad = lambda v: list(v) + [NAN] * (rows - len(v))
        ps = [dict(p, **{k: pad(p[k]) for k in ("pres", "sal", "ptmp", "temp")}) for p in ps]
        import numpy as np
        self.w.write_source(NAMES[f], ps, where if where is not None else self.dir, dtype=self.q["dtype"])
        return rows

    def files(self, f):
        n = NAMES[f]
        return {k: self.w.file(k, n, self.dir) for k in ("map", "ser", "fit", "source")}

    def job(self, f, cfg=None):
        return {"dir": self.q["dir"], "name": NAMES[f], "cfg": self.config(cfg), "cwd": self.w.path("cwd")}


def run(case, box, repeat=None):
    """Carries out a history; gives what T_H reads."""
    q = case["in"]
    files, seen = [], {}

    def number(path, reader):
        s = signature(path)
        if s is None:
            return 0
        got = reader(path)
        key = pickle.dumps(got)                   # files that differ in their header's time only are the same
        if key not in seen:
            files.append(got)
            seen[key] = len(files)
        return seen[key]

    def state(site):
        return {f: {"map": number(site.files(f)["map"], read_mapped), "ser": number(site.files(f)["ser"], read_series),
                    "fit": number(site.files(f)["fit"], read_fit)} for f in "ab"}
    out = {"steps": [], "files": files, "refs": [], "fitrefs": [], "settings": [settings_of(q["cfgs"][str(v)]) for v in (1, 2, 3)],
           "good": [{"f": f, "no": int(n), "ver": int(v), "ok": p["good"]} for f, ns in q["profiles"].items() for n, vs in ns.items() for v, p in vs.items()]}
    sites = []
    try:
        site = Site(os.path.join(box, "w"), q)
        sites.append(site)
        twin = None
        if any(a["do"] == "fail" for a in q["steps"]):
            twin = Site(os.path.join(box, "twin"), q)
            sites.append(twin)
        keys = follow(site, q, out, state, twin, box)
        if case["prop"] in ("C01", "C04"):
            out["refs"] = references(site, sorted(keys), box)
    finally:
        for s in sites:
            s.close()
    return out


def settings_of(s):
    return [s[k] for k in ("long_large", "lat_large", "long_small", "lat_small", "phi_large", "phi_small", "age_large", "age_small", "pv", "saf", "delta", "exclude")]


def follow(site, q, out, state, twin, box):
    src = {"a": [], "b": []}
    mapped = {"a": set(), "b": set()}
    keys = set()
    for i, a in enumerate(q["steps"]):
        obs = {}
        for s in (site, twin):
            if s is not None:
                if a["do"] == "fail" or runs(a):
                    if s is twin and a["do"] == "fail":
                        continue
                    o = program(s, a, src, out, box, i, s is twin)
                    if s is site:
                        obs = o
                    else:
                        obs["twin_erred"] = o["erred"]
                else:
                    operator(s, a)
        if a["do"] == "source":
            src[a["f"]] = a["list"]
        for f in [f for f, what in runs(a) if what == "map"]:
            for e in src[f]:
                if e["no"] not in mapped[f]:
                    keys.add((f, e["no"], e["ver"], site.clim, site.cfg))
                    mapped[f].add(e["no"])
        if a["do"] == "forget":
            mapped[a["f"]] = set()
        obs["state"] = state(site)
        if twin is not None:
            obs["twin"] = state(twin)
        out["steps"].append({"act": {k: v for k, v in a.items() if k not in ("rows", "proc", "frac", "where", "kind", "how", "miss", "shut", "form", "schedule")}, "obs": obs})
    return keys


def operator(s, a):
    from scipy.io import loadmat, savemat
    import numpy as np
    what = a["do"]
    if what == "source":
        s.write_source(a["f"], a["list"], rows=a["rows"])
    elif what == "clim":
        s.clim = a["v"]
        s.write_clim()
    elif what == "config":
        s.cfg = a["v"]
    elif what == "restart":
        s.close()
    elif what == "forget":
        for k in ("map", "ser", "fit"):
            p = s.files(a["f"])[k]
            if os.path.exists(p):
                os.remove(p)
    elif what == "oldformat":
        p = s.files(a["f"])["map"]
        m = {k: v for k, v in loadmat(p).items() if not k.startswith("__")}
        m.pop("use_saf", None)
        savemat(p, m)
    elif what == "oldseries":
        p = s.files(a["f"])["ser"]
        try:
            m = {k: v for k, v in loadmat(p).items() if not k.startswith("__")}
        except Exception:
            return
        m.pop("use_percent_gt", None)
        savemat(p, m)
    elif what in ("edit", "bounds"):
        p = s.files(a["f"])["ser"]
        try:
            m = {k: v for k, v in loadmat(p).items() if not k.startswith("__")}
        except Exception:
            return
        shape = {"row": (1, -1), "column": (-1, 1), "plain": (-1,)}[a["form"]]
        if what == "edit":
            nos, ser = m["calib_profile_no"].flatten(), m["calseries"].flatten().astype(float)
            m["calseries"] = np.where(ser == 0, 0, np.where(nos <= a["cut"], 1, 2)).astype(float).reshape(shape)
            m["calib_profile_no"] = nos.reshape(shape)
        else:
            t = a["set"]
            one = lambda v: np.array(v, dtype=float).reshape(shape) if len(v) else np.array([])
            m.update({"use_" + k: one(t[k]) for k in BOUNDS}, max_breaks=one(t["max"]), breaks=np.array(t["breaks"], dtype=float), use_percent_gt=float(t["percent"]))
        savemat(p, m)


def program(s, a, src, out, box, i, quiet):
    """A step of the program: what was found after it."""
    before = tree(s.w.root)
    repo = None if quiet else repo_stats()
    swallowed = None
    how = ""
    if a["do"] == "fail":
        r, swallowed, how = fail(s, a)
        got = {a["f"]: r}
    else:
        if not quiet:
            ref = {}
            for f, what in runs(a):
                if what == "fit":
                    out["fitrefs"].append(fit_alone(s, f, box, i))
                    ref[f] = len(out["fitrefs"])
        if a["do"] == "both":
            got, how = both(s, a)
        else:
            s.worker(a["proc"]).send(a["do"], s.job(a["f"]))
            got = {a["f"]: s.worker(a["proc"]).answer()}
    for k in (0, 1):
        if any(r.get("gone") for r in got.values()):
            s.drop(k)
    obs = {"changed": changed(s, before, tree(s.w.root)), "config": all(r.get("config", True) for r in got.values()), "erred": sorted(f for f in got if "error" in got[f]), "twin_erred": []}
    if not quiet:
        now = repo_stats()
        obs["changed"] += [{"f": "", "what": "other", "path": p} for p in set(repo) | set(now) if repo.get(p) != now.get(p)]
        if a["do"] != "fail":
            obs["ref"] = ref
    if a["do"] == "fail":
        obs.update(swallowed=bool(swallowed), how=how, replaced=got[a["f"]]["replaced"])
    if a["do"] == "both":
        obs["schedule"] = how
    for f, r in got.items():
        if "error" in r:
            obs["stopped"] = obs.get("stopped", "") + "%s: %s\n%s\n" % (f, r["error"], r.get("trace", "") if a["do"] != "fail" else "")
    return obs


def both(s, a):
    """Two floats at the same time; (answers, how)."""
    c = a["schedule"]
    wk = {"a": s.worker(a["proc"]), "b": s.worker(1 - a["proc"])}
    if c["kind"] == "together":
        for f in "ab":
            wk[f].send(a[f], s.job(f))
        return {f: wk[f].answer() for f in "ab"}, "freely"
    f, g = c["first"], "ba"["ab".index(c["first"])]
    wk[f].send(a[f], dict(s.job(f), pause=c, root=s.w.root))
    r = wk[f].answer()
    paused = "paused" in r
    wk[g].send(a[g], s.job(g))
    waits = paused and not wk[g].ready(20)             # for the other one to go on
    other = None if waits else wk[g].answer()
    if paused:
        wk[f].send("go")
        r = wk[f].answer()
    return {f: r, g: wk[g].answer() if waits else other}, "one stops while " + {"line": "computing"}.get(c["kind"], c["kind"]) if paused and not waits else "one waits for the other" if waits else "one after the other"


def changed(s, before, now):
    own = {p: (f, k) for f in "ab" for k, p in s.files(f).items() if k != "source"}
    out = []
    for p in sorted(set(before) | set(now)):
        if before.get(p) == now.get(p):
            continue
        if p in own:
            out.append({"f": own[p][0], "what": own[p][1], "path": p[len(s.w.root):]})
        else:
            inp = p in before and any(p.startswith(s.w.path(d) + os.sep) for d in ("source", "clim", "const"))
            out.append({"f": "", "what": "input" if inp else "other", "path": p[len(s.w.root):]})
    return out


def fail(s, a):
    """A run that is made to fail; (answer, whether it went on to the end, how)."""
    out = s.files(a["f"])[{"map": "map", "series": "ser", "fit": "fit"}[a["what"]]]
    aside = s.w.root + ".aside"
    wk = s.worker(a["proc"])
    place = {"source": s.files(a["f"])["source"], "bathymetry": s.w.path("const", "tbase.int"), "boxes": s.w.path("const", "wmo_boxes.mat"),
             "mapped": s.files(a["f"])["map"], "series": s.files(a["f"])["ser"]}
    if a["how"] == "unreadable":
        kept = signature(out)
        shutil.copy2(out, aside) if kept is not None else None
        wk.send(a["what"], dict(s.job(a["f"]), unreadable=os.path.abspath(place[a["shut"]])))
        r = wk.answer()
        how = "unreadable " + a["shut"]
    elif a["how"] == "environment":
        p = place[a["miss"]]
        kept = signature(out)
        shutil.copy2(out, aside) if kept is not None else None
        moved = os.path.exists(p)
        if moved:
            os.rename(p, p + ".away")
        wk.send(a["what"], s.job(a["f"]))
        r = wk.answer()
        if moved:
            os.rename(p + ".away", p)
        how = "missing " + a["miss"]
    else:
        exists = os.path.exists(out)
        if exists:
            shutil.copy2(out, aside)
        wk.send(a["what"], dict(s.job(a["f"]), count=out))
        lines = wk.answer().get("lines", [0, 0])
        if os.path.exists(out):                   # the copy of the process has written it
            os.remove(out)
        if exists:
            shutil.copy2(aside, out)
        kept = signature(out)
        upto = lines[1] or lines[0]               # nothing written: fail anywhere
        span = upto if a["where"] == "any" else min(upto, 250)
        n = int(a["frac"] * span) + (upto - span + 1 if a["where"] == "end" else 1)
        n = max(1, min(n, upto))
        wk.send(a["what"], dict(s.job(a["f"]), fault={"n": n, "kind": "kill" if a["how"] == "kill" else a["kind"]}))
        r = wk.answer()
        how = "kill" if a["how"] == "kill" else a["kind"]
        if r.get("gone"):
            s.drop(a["proc"])
            r["config"] = True
            r.pop("gone")
            if a["how"] != "kill":
                r["error"] = "the process ended"
    swallowed = "error" not in r
    r["replaced"] = a["how"] == "unreadable" and out == place[a["shut"]] and kept is not None and signature(out) != kept
    if swallowed:                                 # the run went on: as if it had not been
        if os.path.exists(out):
            os.remove(out)
        if kept is not None:
            shutil.copy2(aside, out)
    if os.path.exists(aside):
        os.remove(aside)
    return r, swallowed, how


# -- alone ------------------------------------------------------------------------------------------------------

def references(site, keys, box):
    out = []
    sites = {}
    for f, no, ver, clim, cfg in keys:
        if clim not in sites:
            s = sites[clim] = Site(os.path.join(box, "alone%d" % clim), site.q)
            s.clim = clim
            s.write_clim()
        s = sites[clim]
        for k in ("map", "source"):
            if os.path.exists(s.files(f)[k]):
                os.remove(s.files(f)[k])
        s.write_source(f, [{"no": no, "ver": ver}])
        r = alone("map", s.job(f, cfg))
        x = {"f": f, "no": no, "ver": ver, "clim": clim, "cfg": cfg}
        if "error" not in r:
            m = read_mapped(s.files(f)["map"])
            if m["readable"] and len(m["cols"]) == 1:
                x["col"] = m["cols"][0]
            else:
                r = {"error": "no single column"}
        if "error" in r:
            x["error"] = r["error"]
        out.append(x)
    return out


def fit_alone(s, f, box, i):
    root = os.path.join(box, "fit%d" % i)
    cfg = s.config()
    for k, d in (("source", "FLOAT_SOURCE_DIRECTORY"), ("map", "FLOAT_MAPPED_DIRECTORY"), ("ser", "FLOAT_CALIB_DIRECTORY")):
        to = os.path.join(root, k, s.dir)
        os.makedirs(to)
        cfg[d] = os.path.join(root, k)
        if os.path.exists(s.files(f)[k]):
            shutil.copy(s.files(f)[k], to)
    r = alone("fit", {"dir": s.q["dir"], "name": NAMES[f], "cfg": cfg, "cwd": os.path.join(root, "cwd")})
    if "error" in r:
        out = {"error": r["error"]}
    else:
        out = read_fit(os.path.join(root, "ser", s.dir, os.path.basename(s.files(f)["fit"])))
        if not out["readable"]:
            out = {"error": "unreadable"}
    shutil.rmtree(root, ignore_errors=True)
    return out


# -- the checks -----------------------------------------------------------------------------------------------------

def generate(r, focus, number, length, floats):
    """Abstract histories from TLC's simulation of Workflow."""
    em = r.tlc("WorkflowGen", params={"focus": focus, "length": length, "floats": floats}, workers=1, check=False, what="generation of histories",
               mode=("-simulate", "num=%d" % number, "-depth", str(8 * length), "-seed", str(1000 * r.seed + 10 * focus + floats)))
    got = em.get("H", [])
    if not got:
        from runner import Machinery
        raise Machinery("no histories: " + r.last_log[-2000:])
    r.notes.append("%d histories of length %d of %d float(s) generated by TLC in simulation mode" % (len(got), length, floats))
    return got


def cases_of(r, prop, plan, **kw):
    """plan: (number, length, floats) of each batch."""
    return [concretise(r.rng, prop, h, **kw) for number, length, floats in plan for h in generate(r, int(prop[1:]), number, length, floats)]


def swap(f):
    """The recorded history with one file replaced by what f makes of it, at the step where it was last written."""
    def corrupt(out, kind):
        for i in reversed(range(len(out["steps"]))):
            s = out["steps"][i]
            for fl, what in runs(s["act"]):
                if what[:3] != kind or fl in s["obs"]["erred"] or not s["obs"]["state"][fl][kind]:
                    continue
                prev = out["steps"][i - 1]["obs"]["state"] if i else None
                old = out["files"][prev[fl][kind] - 1] if prev and prev[fl][kind] else None
                new = f(json.loads(json.dumps(out["files"][s["obs"]["state"][fl][kind] - 1])), old)
                if new is None:
                    continue
                o = dict(out, files=out["files"] + [new], steps=list(out["steps"]))
                st = json.loads(json.dumps(s))
                st["obs"]["state"][fl][kind] = len(o["files"])
                o["steps"][i] = st
                return o
    return corrupt


def touched(cols):
    return [j for j, c in enumerate(cols) if any(v == v for v in c["sal"])]


def wrong_number(m, old):
    m["nos"][-1] += 1
    return m


def twice(m, old):
    m["nos"].append(m["nos"][-1])
    m["cols"].append(m["cols"][-1])
    return m


def exchanged(m, old):
    t = touched(m["cols"])
    if len(t) < 2:
        return None
    a, b = m["cols"][t[0]], m["cols"][t[1]]
    m["cols"][t[0]], m["cols"][t[1]] = b, a
    return m


def narrow(m, old):
    m["widths"][3] -= 1
    return m


def kept_changed(m, old):
    for j, n in enumerate(m["nos"]):
        if old and n in old["nos"] and m["cols"][j]["err"] and m["cols"][j]["err"][0] == m["cols"][j]["err"][0]:
            m["cols"][j]["err"][0] += 1e-6
            return m


def kept_setting(m, old):
    for j, n in enumerate(m["nos"]):
        if old and n in old["nos"] and j in touched(m["cols"]):
            m["cols"][j]["settings"][3] += 1
            return m


def new_setting(m, old):
    for j, n in enumerate(m["nos"]):
        if n not in (old["nos"] if old else []) and j in touched(m["cols"]):
            m["cols"][j]["settings"][7] += 1
            return m


def new_changed(m, old):
    for j in touched(m["cols"]):
        if m["nos"][j] not in (old["nos"] if old else []):
            m["cols"][j]["sal"] = [v + 1e-6 for v in m["cols"][j]["sal"]]
            return m


def fit_changed(x, old):
    v = x["values"]["cal_SAL"]
    if all(y != y for y in v):
        return None
    x["values"]["cal_SAL"] = [y + 1e-6 for y in v]
    return x


def next_series(s, old):
    s["series"][0] += 1
    return s


def no_profile(s, old):
    s["nos"].pop()
    s["series"].pop()
    return s


def other_range(s, old):
    s["theta_lt"] = s["theta_lt"] + [1.]
    return s


def other_breaks(s, old):
    s["max"] = [v + 1 for v in s["max"]]
    return s


CONTROLS = {"C01": [("number", "map", wrong_number), ("twice", "map", twice), ("exchanged columns", "map", exchanged), ("narrow array", "map", narrow)],
            "C02": [("changed column", "map", kept_changed), ("changed settings", "map", kept_setting), ("wrong settings", "map", new_setting)],
            "C04": [("changed column", "map", new_changed), ("changed fit", "fit", fit_changed)],
            "C15": [("series number", "ser", next_series), ("profile missing", "ser", no_profile), ("range", "ser", other_range), ("breaks", "ser", other_breaks)],
            "C20": [("changed column", "map", new_changed), ("changed series", "ser", next_series)]}


def controls(c):
    """Recordings that must be rejected."""
    out = c["out"]
    if "error" in out or c["k"] % 5:
        return
    for tag, kind, f in CONTROLS.get(c["prop"], []):
        o = swap(f)(out, kind)
        if o is not None:
            yield tag, o
    if c["prop"] in ("C19", "C20"):
        for i, s in enumerate(out["steps"]):
            if s["act"]["do"] in (("map", "fit", "both", "fail") if c["prop"] == "C19" else ("fail",)) and not s["obs"].get("swallowed") and (s["act"]["do"] == "fail" or not s["obs"]["erred"]):
                for tag, x in (("input", {"f": "", "what": "input"}), ("elsewhere", {"f": "", "what": "other"})):
                    if tag == "input" or c["prop"] == "C19" and s["act"]["do"] != "fail":
                        st = json.loads(json.dumps(s))
                        st["obs"]["changed"].append(x)
                        yield tag, dict(out, steps=out["steps"][:i] + [st] + out["steps"][i + 1:])
                break


def check_histories(r, prop, plan, replay, models=(), limit=240, **kw):
    """The histories of one property, followed by T_H; models: configurations of WorkflowMC checked exhaustively."""
    from runner import standard
    r.tbase()
    if replay:
        return standard(r, prop.lower(), "T_H", [], replay=replay)
    for cfg, what in models:
        r.tlc("WorkflowMC", cfg=cfg, what=what)
    return standard(r, prop.lower(), "T_H", cases_of(r, prop, plan, **kw), controls, limit=limit)
