"""C20: histories with runs that fail, against the same histories without them."""
from histories import run, check_histories
ASSUMPTIONS = ["a run is stopped at a line of pyowc before its output is opened for writing (an exception or the end of the process), or by a file that is missing",
               "when the run goes on all the same, its result is put back as it was before", "the random error estimate of fits with break points found is left out"]
EXPECT = ["failed map", "failed series", "failed fit", "by kill", "by RuntimeError", "by MemoryError", "by KeyboardInterrupt", "by OSError", "by missing source", "by missing boxes",
          "by missing bathymetry", "by missing mapped", "by missing series", "by unreadable source", "by unreadable mapped", "by unreadable series", "after a failed run", "fit after a failed run"]


def check(r, replay):
    return check_histories(r, "C20", r.pick([(40, 12, 1), (16, 13, 2)], [(400, 14, 1), (200, 16, 2), (60, 30, 2)]), replay)
