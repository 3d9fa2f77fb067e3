"""The stepsize follows the documented law after every answer of the solver."""

import itertools

BOUNDS = {
    "quick": "all answers of the solver (4 iterations, 5 iterations, failed) to the first 4 attempts "
    "over the products of {constant, adaptive} x {no limit, constant, time-dependent, deprecated "
    "t_stop} x {with, without milestones} x 3 initial stepsizes x 2 ratios; long runs under periodic words of answers; other numbers of iterations",
    "thorough": "as quick with the first 7 attempts and more values",
}
ASSUMPTIONS = ["the answers of the nonlinear solver are the only environment of the time stepping"]


def cases(tier):
    out = []
    big = tier == "thorough"
    ratios = (None, 1.2, 3.0) + ((1.05, 2.0) if big else ())
    for fr, ratio, lim, ms in itertools.product(
        (0.12, 0.3, 1.5), ratios, range(5), (None, [0.35, 0.8], [0.5])
    ):
        if ratio is None and lim:
            continue
        d = {"initial_value": fr}
        if ratio:
            d.update(stepsize_change_ratio=ratio, dt_min=fr / ratio**2)
        if lim == 1:
            d["max_stepsize"] = 0.11
        elif lim == 2:
            d["max_stepsize"] = [[0.4, 0.09]]
        elif lim == 3:
            d["max_stepsize"] = [[0.0, 0.08], [0.3, None], [0.6, 0.12]]
        elif lim == 4:
            d.update(t_stop=0.25, stepsize_stop_max=0.07)
        if ms:
            d["milestones"] = ms
        out.append({"id": f"{fr}-{ratio}-{lim}-{ms}", "group": f"g{len(out) % 16}",
                    "cfg": {"final": 1.0, "dt": d}, "depth": 6 if big else 4})
    from mc.longruns import long_runs

    for i, (name, cfg) in enumerate(long_runs(tier)):
        out.append({"id": f"long-{name}", "group": f"long{i % 6}", "cfg": cfg, "long": 1, "cost": 6})
    # other numbers of iterations
    for fast, slow in itertools.product((0, 1, 3, 4), (5, 6, 9, 30)):
        out.append({"id": f"iter-{fast}-{slow}", "group": f"iter{fast}", "long": 1, "fast": fast, "slow": slow,
                    "cfg": {"final": 1.0, "dt": {"initial_value": 0.1, "stepsize_change_ratio": 1.4, "dt_min": 1e-7, "milestones": [0.5], "max_stepsize": 0.2}}})
    return out


def run(case):
    from mc import stepping as st

    if case.get("long"):
        return st.explore_long(case["cfg"], [lambda r: st.law(r.cfg, r.ctl.log, r.times)], fast=case.get("fast", 4), slow=case.get("slow", 5))
    return st.explore(case["cfg"], case["depth"],
                      [lambda r: st.law(r.cfg, r.ctl.log, r.times)], tails=("a",))
