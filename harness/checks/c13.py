"""C13: a reused estimator behaves like a fresh one."""
import rec_history
from checks import c09

RECORDERS = {"histories": rec_history.history_case}
SHARES = [("azp", 120, 1000, 4), ("sa", 100, 700, 4), ("tabu", 150, 1000, 4),
          ("rtabu", 150, 1200, 4), ("maxp", 250, 1500, 3), ("pexact", 25, 200, 3),
          ("maxpexact", 20, 150, 3), ("skater", 60, 500, 3)]


def run(ctx):
    ctx.model("histories of an estimator", "MC_Estimator",
              ctx.n("MC_Estimator.cfg", "MC_Estimator_deep.cfg"), workers=8, timeout=800)
    rng = ctx.rng("repeated")
    more = [rec_history.repeated_history(rng, kind) for kind in ("azp", "sa", "tabu") + ("rtabu",) * 4
            for _ in range(ctx.n(60, 800))]
    c09.histories(ctx, "same", SHARES, more=more)
