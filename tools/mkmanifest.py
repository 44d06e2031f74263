"""Writes /verif/MANIFEST.json: a check for every property that has a module in checks/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASES = "TLA+ functional specification; every recorded call of the real code is judged by TLC (trace validation)"
HIST = "TLA+ state machine; TLC-generated histories are replayed into the real code and the recorded traces validated by TLC"
NOTE = {
 "C01": (HIST, "States of the mapped file after every run of generated histories are compared with the specification's states; bounded number of runs and profiles per history."),
 "C02": (HIST, "As C01, with the stored values and settings of each profile compared bit for bit across later runs."),
 "C03": (CASES, "Mapped columns of whole runs over synthetic worlds are recomputed from the specification with 40-digit numbers; trusts numpy/scipy file reading and the casts returned by get_region_data (C05) and find_besthist (C08)."),
 "C04": (HIST, "Results of interleaved and split runs are compared with those of fresh single runs; the casts taken part in are compared with the specification."),
 "C05": (CASES, "Locations and data of generated climatologies, with missing and damaged files, are recomputed by the specification."),
 "C06": (CASES, "All box edges, the seam, poles and random positions; exact."),
 "C07": (CASES, "Synthetic bathymetry with a value per node that encodes its position; regions of every form; exact."),
 "C08": (CASES, "A selection is accepted when some random draw explains it; ellipse and correlations are recomputed with 40 digits."),
 "C09": (CASES, "Every float level and cast of generated climatologies is recomputed with 40 digits."),
 "C10": (CASES, "The optimal estimate is solved with 40 digits for every recorded call."),
 "C11": (CASES, "Covariances, signal and noise recomputed with 40 digits."),
 "C12": (CASES, "Normal equations solved with 40 digits for every recorded call."),
 "C13": (CASES, "The returned model is recomputed and compared with the specification's candidates; break positions are judged as local optima of the documented search."),
 "C14": (CASES, "Levels, indices and variances are recomputed with 40 digits for every recorded call."),
 "C15": (HIST, "The file after every run of generated histories is compared with the specification's state."),
 "C16": (CASES, "Calibrated values recomputed from the recorded factors; trusts gsw conductivity conversion."),
 "C17": (CASES, "Every calendar day and sampled numbers; recomputed with 40 digits."),
 "C18": (CASES, "Classification of float and casts recomputed; trusts gsw for in-situ temperature."),
 "C19": (HIST, "Digests of all input files and arguments before and after each operation of generated histories."),
 "C20": (HIST, "A fault is injected at every file access and call of generated runs; states compared with the specification."),
}
NOTE["C21"] = ("TLA+ specification of the figures' contents and of the windows of a process; TLC-generated plotting histories are run in the real code and every saved figure is judged by TLC",
               "What the axes hold at the moment of saving is compared with the specification, which recomputes it from the files; the choice of theta levels is C14's; colours and wording are not judged.")
done = sorted(f[:-3].upper() for f in os.listdir(V + "/checks") if f.startswith("c") and f.endswith(".py"))
wip = os.environ.get("WIP", "").split()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": [],
     "notes": "Specification in spec/*.tla, checked with TLC; conformance bindings in checks/*.py; see DESIGN.md."}
for p in props:
    i = p["id"]
    if i in done and i not in wip:
        m["checks"].append({"property": i, "quick_cmd": "bin/check %s --tier quick" % i,
                            "thorough_cmd": "bin/check %s --tier thorough" % i, "technique": NOTE[i][0],
                            "level": "model_checking", "level_note": NOTE[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check is not built yet"})
if not m["not_applicable"]:
    del m["not_applicable"]
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
