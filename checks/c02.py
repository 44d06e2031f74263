"""C02: Histories of mapping runs with changing configuration, climatology and sources against Workflow."""
from histories import run, check_histories
ASSUMPTIONS = ["a file written before the frontal constraint existed records 0 or nothing for it"]
EXPECT = ["first mapping", "new profiles", "nothing new", "new profile before an old one", "source out of order", "data of a mapped profile changed", "mapped profile not in the source", "configuration changed", "climatology changed", "file of an older version"]


def check(r, replay):
    return check_histories(r, "C02", r.pick([(32, 13, 1), (16, 13, 2)], [(400, 14, 1), (200, 16, 2), (100, 26, 1)]), replay,
                           [("WorkflowMC.cfg", "all mapping histories of one float with three profile numbers")])
