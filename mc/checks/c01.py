"""A transient run ends exactly at the final time, or raises."""

import itertools

BOUNDS = {
    "quick": "all answers of the solver (fast, slow, failed) to the first 4 attempts, then always "
    "fast / always failed; (3 attempts for the scales 1e-9, 3e7); 6 initial stepsizes; constant, adaptive "
    "without and with dt_min, with limits, with milestones; at most 120 attempts; runs of up to some hundred steps under periodic words of answers",
    "thorough": "as quick, first 6 attempts, and more stepsizes",
}
ASSUMPTIONS = [
    "the answers of the nonlinear solver are the only environment of the time stepping",
    "times closer than 1e-5 (relative) are identified, as everywhere in the code",
]


def cases(tier):
    out = []
    big = tier == "thorough"
    fracs = [0.1, 1 / 3, 0.3, 0.7, 1.0, 3.0] + ([0.07, 0.0999999] if big else [])
    for fin, fr in itertools.product((1.0, 1e-9, 3e7), fracs):
        h = fin * fr
        variants = {
            "const": {},
            "const-ms": {"milestones": [fin / 3, 0.9 * fin]},
            "nomin": {"stepsize_change_ratio": 1.5},
            "min": {"stepsize_change_ratio": 1.5, "dt_min": h / 4},
            "min-ms": {"stepsize_change_ratio": 2.0, "dt_min": h / 5,
                       "milestones": [fin / 7, fin, 0.50001 * fin]},
            "lim": {"stepsize_change_ratio": 2.0, "dt_min": h / 9, "max_stepsize": 0.2 * fin},
            "limf": {"stepsize_change_ratio": 2.0, "dt_min": h / 9,
                     "max_stepsize": [[0.5 * fin, 0.15 * fin]]},
            "past": {"stepsize_change_ratio": 1.3, "dt_min": h / 9, "milestones": [2 * fin]},
        }
        for name, v in variants.items():
            if fin != 1.0 and not big and name not in ("const-ms", "min", "min-ms"):
                continue
            out.append({
                "id": f"{fin:g}-{fr:.4g}-{name}", "group": f"g{len(out) % 16}",
                "cfg": {"final": fin, "dt": dict(v, initial_value=h), "jac": len(out) % 5 == 0},
                "depth": (6 if big else 4) - (fin != 1.0),
            })
    # stepsizes which only reach the final time up to rounding
    for n in (3, 7, 10, 49) if not big else range(2, 80):
        for fin in (1.0, 1e-9, 3e7):
            out.append({"id": f"round-{fin:g}-{n}", "group": "round", "depth": 1,
                        "cfg": {"final": fin, "dt": {"initial_value": fin / n}}})
    for o in "abx":
        out.append({"id": f"steady-{o}", "group": "steady", "steady": o})
    from mc.longruns import long_runs

    for i, (name, cfg) in enumerate(long_runs(tier)):
        out.append({"id": f"long-{name}", "group": f"long{i % 6}", "cfg": cfg, "long": 1, "cost": 6})
    return out


def run(case):
    from mc import stepping as st

    if case.get("long"):
        return st.explore_long(case["cfg"], [st.check_ends])
    if case.get("steady"):
        r = st.Stepping({"steady": True}).play(case["steady"])
        o = case["steady"]
        bad = []
        if o == "x" and r.end is None:
            bad.append("a steady state which did not converge was reported as solved")
        if o != "x" and r.end is not None:
            bad.append(f"raised {r.end!r} though the solver converged")
        if len(r.ctl.log) != 1:
            bad.append(f"{len(r.ctl.log)} attempts")
        return {"violations": bad, "states": 1, "transitions": 1, "traces": 1, "outcome": "steady " + o}
    return st.explore(case["cfg"], case["depth"], [st.check_ends])
