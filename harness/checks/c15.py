"""C15: max-p construction, choice and improvement follow the published heuristic."""
import common
import rec_maxp

RECORDERS = {"fits": rec_maxp.build_case, "rule": rec_maxp.rule_case}


def run(ctx):
    rng = ctx.rng("fits")
    ctx.model("heuristic on all maps", "MC_MaxP", ctx.n(None, "MC_MaxP_deep.cfg"), workers=8)
    jobs = [rec_maxp.rand_fit(rng, "build", rng.choice([5, 7, 9]),
                              rng.choice([None, None, None, "azp", "tabu", "rtabu"]))
            for _ in range(ctx.n(1300, 13000))]
    jobs += rec_maxp.instance_jobs(ctx, "build", 900, (None, None, "azp", "tabu", "rtabu"))
    cases = common.record(rec_maxp.build_case, jobs)
    ctx.count("observed constructions", sum(len(c["built"]) for c in cases))
    ctx.count("fits without equal-value moves", sum(not c["tied"] for c in cases))
    ctx.judge("fits", "MaxPTrace", jobs, cases, weight=lambda c: 1 + len(c["built"]) * len(c["nb"]))
    jobs = [rec_maxp.rand_rule(rng, True) for _ in range(ctx.n(1500, 15000))]
    cases = common.record(rec_maxp.rule_case, jobs)
    ctx.judge("rule", "MaxPTrace", jobs, cases)
