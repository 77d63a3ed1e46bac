"""C10: all input formats describe the same map and give area-aligned results."""
import api
import common
import rec_formats

RECORDERS = {"fits": rec_formats.fit_case, "converters": rec_formats.convert_case}
SHARES = [("azp", 260, 2000), ("sa", 60, 500), ("tabu", 90, 700), ("rtabu", 90, 700),
          ("maxp", 150, 1200), ("pexact", 110, 700), ("maxpexact", 110, 700),
          ("skater", 60, 400)]


def telling(job):
    """Labels laid on the wrong areas of this map would not go unnoticed."""
    nb, ext = job["nb"], job.get("ext")
    sparse = len(nb) >= 4 and all(nb) and sum(map(len, nb)) <= 2 * len(nb)
    if not ext:
        return sparse and 1 < job["p"] < len(nb)
    cols = list(zip(*ext))
    return sparse and any(max(c) < t or sorted(c)[len(c) // 2] < t <= sum(c) // 2
                          for c, t in zip(cols, job["thr"])) \
        and all(t <= sum(c) // 2 for c, t in zip(cols, job["thr"]))


def telling_fit(rng, est, fmt):
    while True:
        job = rec_formats.rand_fit(rng, est, fmt=fmt)
        if telling(job):
            return job


def run(ctx):
    for fmt in ("nx", "dict"):
        ctx.model("reader of " + fmt, "MC_Formats",
                  "MC_Formats_{}{}.cfg".format(fmt, ctx.n("", "_deep")), workers=8, timeout=400)
    rng = ctx.rng("fits")
    jobs = []
    for est, quick, thorough in SHARES:
        for k in range(ctx.n(quick, thorough)):
            jobs.append(rec_formats.rand_fit(rng, est, fmt=api.FORMATS[k % len(api.FORMATS)],
                                             nmax=rng.choice([4, 6, 9, 9])))
    jobs = [rec_formats.rand_fit(rng, "azp", fmt, rng.randint(130, 160), 130)
            for fmt in api.FORMATS for _ in range(ctx.n(1, 10))] + jobs
    for est in ("pexact", "maxpexact", "azp"):
        for fmt in api.FORMATS:
            jobs += [telling_fit(rng, est, fmt) for _ in range(ctx.n(14, 100))]
    cases = common.record(rec_formats.fit_case, jobs, chunk=2)
    for c in cases:
        ctx.count("{} in {}".format(c["est"], c["fmt"]))
        ctx.count("slow solver runs", c["kind"] == "slow")
        ctx.count("labellings shown to the objective", len(c["seen"]))
    ctx.judge("fits", "FormatsTrace", jobs, cases,
              weight=lambda c: 3 ** len(c["attr"]) if "exact" in c["est"] else 60)
    rng = ctx.rng("converters")
    jobs = [rec_formats.rand_convert(rng, conv) for conv in rec_formats.CONV
            for _ in range(ctx.n(60, 600))]
    jobs += [rec_formats.rand_convert(rng, conv, 130, 160) for conv in rec_formats.CONV
             for _ in range(ctx.n(1, 8))]
    cases = common.record(rec_formats.convert_case, jobs, chunk=20)
    ctx.judge("converters", "FormatsTrace", jobs, cases)
