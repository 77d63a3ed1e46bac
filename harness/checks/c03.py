"""C03: local search only takes legal single-area moves, each within its move rule."""
import algos
import common
import rec_walk

RECORDERS = {"walks": lambda job: rec_walk.walk_cases(job)}


def run(ctx):
    rng = ctx.rng("walks")
    ctx.model("moves on all maps", "MC_AZP", "MC_AZPMoves.cfg" if ctx.quick else
              "MC_AZPAny.cfg", workers=8)
    jobs = []
    for algo, k in (("azp", 3), ("sa", 2), ("tabu", 3), ("rtabu", 3)):
        for _ in range(ctx.n(300, 3500) * k):
            jobs.append(algos.rand_job(rng, algo, 2, rng.choice([5, 7, 9, 11]), rich=0.9))
    jobs += algos.instance_jobs(ctx, ("azp", "sa", "tabu", "rtabu"), 200)
    recs = common.record(rec_walk.walk_cases, jobs)
    flatjobs = [j for j, r in zip(jobs, recs) for _ in r]
    cases = [c for r in recs for c in r]
    ctx.count("moves", sum(max(0, len(c["walk"]) - 1) for c in cases))
    ctx.judge("walks", "Walk", flatjobs, cases, weight=lambda c: 3 + len(c["walk"]))
