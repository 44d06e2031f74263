"""C01: Histories of mapping runs against Workflow."""
from histories import run, check_histories
ASSUMPTIONS = ["the own values of a profile are those that the same code gives for it alone (C03 judges them)", "Workflow follows the runs of one process or two, mapping of two floats at once included"]
EXPECT = ["first mapping", "new profiles", "nothing new", "new profile before an old one", "source out of order", "data of a mapped profile changed", "mapped profile not in the source", "configuration changed", "climatology changed", "file of an older version", "both", "forget", "restart"]


def check(r, replay):
    return check_histories(r, "C01", r.pick([(24, 12, 1), (24, 12, 2)], [(300, 14, 1), (300, 14, 2), (120, 24, 2)]), replay,
                           [("WorkflowMC.cfg", "all mapping histories of one float with three profile numbers")])
