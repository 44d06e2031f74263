"""C19: histories of the analysis, what they write, and histories of calls of the numerical functions."""
import functions
import histories
ASSUMPTIONS = ["the random error estimate of fits with break points is repeated with the same state of numpy's random numbers",
               "callers may overwrite the arrays that a function returned",
               "helper functions whose purpose is to extend the dictionary of results they are given are not among the numerical functions"]
EXPECT = ["map", "both", "series", "fit", "first mapping", "new profiles", "nothing new"] + functions.NAMES


def run(case, box):
    return (functions if case["kind"] == "functions" else histories).run(case, box)


def check(r, replay):
    from runner import standard
    if replay:
        return standard(r, "c19", "T_C19" if replay["case"]["kind"] == "functions" else "T_H", [], replay=replay)
    cases, verdicts, extra = histories.check_histories(r, "C19", r.pick([(40, 13, 2)], [(400, 14, 2), (150, 24, 2)]), None)
    for c in cases + extra:
        verdicts["h%s" % c["k"]] = verdicts.pop(c["k"])
        c["k"] = "h%s" % c["k"]
    more, v, x = standard(r, "c19", "T_C19", functions.cases(r, r.pick(24, 300), 2), functions.controls, limit=120)
    verdicts.update(v)
    return cases + more, verdicts, extra + x
