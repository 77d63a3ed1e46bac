"""C09: unsatisfiable or malformed requests are refused and change nothing."""
import common
import rec_history

RECORDERS = {"histories": rec_history.history_case}
SHARES = [("azp", 200, 1500, 4), ("sa", 120, 900, 3), ("tabu", 130, 900, 3), ("rtabu", 130, 900, 3),
          ("maxp", 120, 900, 3), ("pexact", 60, 400, 3), ("maxpexact", 50, 300, 3),
          ("skater", 80, 600, 3)]


def histories(ctx, mode, shares, factor=1.0, more=()):
    rng = ctx.rng("histories")
    jobs = list(more)
    for kind, quick, thorough, length in shares:
        for _ in range(int(ctx.n(quick, thorough) * factor)):
            jobs.append(rec_history.rand_history(rng, kind, mode, rng.randint(1, length)))
    rng.shuffle(jobs)
    cases = common.record(rec_history.history_case, jobs, chunk=3)
    ctx.judge("histories", "EstimatorTrace", jobs, cases, weight=lambda c: len(c["events"]))
    for c in cases:
        for e in c["events"]:
            ctx.count("fits " + e["kind"])


def run(ctx):
    ctx.model("histories of an estimator", "MC_Estimator",
              ctx.n("MC_Estimator.cfg", "MC_Estimator_deep.cfg"), workers=8, timeout=800)
    ctx.model("every fit ends", "MC_Estimator", "MC_EstimatorEnds.cfg", workers=8)
    rng = ctx.rng("spoiled")
    more = [j for kind, *_ in SHARES
            for j in rec_history.spoiled_histories(rng, kind, ctx.n(1, 6))]
    ctx.count("ways to spoil a request", len(more))
    more += [j for kind, *_ in SHARES
             for j in rec_history.accepted_histories(rng, kind, ctx.n(2, 6))]
    histories(ctx, "refuse", SHARES, more=more)
