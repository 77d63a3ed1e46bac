"""C14: max-p heuristic regions are connected, cover all areas and meet the threshold."""
import common
import gen
import rec_maxp

RECORDERS = {"fits": rec_maxp.fit_case, "rule": rec_maxp.rule_case}


def run(ctx):
    rng = ctx.rng("fits")
    ctx.model("heuristic on all maps", "MC_MaxP", ctx.n(None, "MC_MaxP_deep.cfg"), workers=8)
    jobs = [rec_maxp.rand_fit(rng, "fit", rng.choice([4, 7, 10, 12]))
            for _ in range(ctx.n(1500, 15000))]
    jobs += rec_maxp.instance_jobs(ctx, "fit", 600)
    for _ in range(ctx.n(5, 60)):
        job = rec_maxp.rand_fit(rng, "fit", 4, None)
        nb = gen.big_map(rng, 130, 200)
        m = len(nb)
        top = min(len(c) for c in gen.components(nb))
        jobs.append(dict(job, nb=[sorted(s) for s in nb], ext=[[rng.randint(1, 3)] for _ in nb],
                         thr=[1 if rng.random() < 0.7 else rng.randint(1, top)], scalarthr=False,
                         obj=dict(kind="pairwise", metric="manhattan", centre="mean", red="sum"),
                         attr=gen.rand_attr(rng, m, 1, "digits"), max_it=1, cpu=240))
    cases = common.record(rec_maxp.fit_case, jobs)
    ctx.count("fits not awaited", sum(c["kind"] == "timeout" for c in cases))
    ctx.judge("fits", "MaxPTrace", jobs, cases)
    jobs = [rec_maxp.rand_rule(rng, False) for _ in range(ctx.n(3000, 30000))]
    cases = common.record(rec_maxp.rule_case, jobs)
    ctx.judge("rule", "MaxPTrace", jobs, cases)
