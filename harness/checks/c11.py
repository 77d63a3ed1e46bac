"""C11: fits leave everything the caller passed in unchanged."""
import rec_history
from checks import c09

RECORDERS = {"histories": rec_history.history_case}
SHARES = [("azp", 200, 1500, 2), ("sa", 100, 800, 2), ("tabu", 110, 900, 2),
          ("rtabu", 110, 900, 2), ("maxp", 150, 1000, 2), ("pexact", 40, 300, 2),
          ("maxpexact", 40, 300, 2), ("skater", 120, 800, 2)]


def run(ctx):
    ctx.model("cells of the caller", "MC_Estimator",
              ctx.n("MC_Estimator.cfg", "MC_Estimator_deep.cfg"), workers=8, timeout=800)
    c09.histories(ctx, "args", SHARES)
