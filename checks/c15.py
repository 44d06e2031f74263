"""C15: Histories of series settings against Workflow."""
from histories import run, check_histories
ASSUMPTIONS = ["operators write series numbers 1 and 2 and ranges in any shape that MATLAB writes"]
EXPECT = ["first series", "series extended", "no new profile in the series", "series of an older version", "another fraction", "profile without data", "two series", "range removed", "new profile between known ones"]


def check(r, replay):
    return check_histories(r, "C15", r.pick([(60, 14, 1), (40, 14, 2)], [(1200, 14, 1), (600, 16, 2), (200, 30, 1)]), replay,
                           [("WorkflowMC2.cfg", "all histories of sources, series and fits of one float with two profile numbers")], undata=.25)
