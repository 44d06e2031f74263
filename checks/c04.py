"""C04: Histories of two floats in long-lived processes against the same work done alone in new processes."""
from histories import run, check_histories
ASSUMPTIONS = ["the random error estimate of fits with break points found is left out", "a profile that the code cannot map alone, or a fit it cannot do alone, is not compared"]
EXPECT = ["first mapping", "new profiles", "nothing new", "both", "freely", "one stops while reading", "one stops while writing", "one stops while computing", "map and map", "fit", "climatology changed", "configuration changed", "source out of order"]


def check(r, replay):
    return check_histories(r, "C04", r.pick([(48, 14, 2)], [(500, 16, 2), (100, 30, 2)]), replay,
                           [("WorkflowMC3.cfg", "all mapping histories of two floats with two profile numbers"),
                            ("WorkflowMC4.cfg", "all histories of two floats that are mapped, get series and are fitted at the same time")])
