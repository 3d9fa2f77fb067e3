"""Every milestone and every requested export time is the time of a step."""

import itertools

GRID = [0.1, 0.3, 1 / 3, 0.5, 0.77, 1.0]
BOUNDS = {
    "quick": "all subsets of at most 3 of 6 milestones (sorted and reversed), as milestones and "
    "as text-export times, x 2-3 initial stepsizes x {constant, adaptive} x all answers "
    "of the solver to the first 3 attempts (1 for text exports); time scales 1, 1e-9, 3e7 and milestones close together; long runs under periodic words of answers",
    "thorough": "as quick with all subsets and the first 5 attempts",
}
ASSUMPTIONS = ["times closer than 1e-5 (relative) are identified, as everywhere in the code"]


def cases(tier):
    out = []
    big = tier == "thorough"
    subs = [s for k in range(1, 7 if big else 4) for s in itertools.combinations(GRID, k)]
    for i, s in enumerate(subs):
        for fr, ad in itertools.product((0.15, 0.4, 2.0), (0, 1)):
            base = {"initial_value": fr}
            if ad:
                base.update(stepsize_change_ratio=1.7, dt_min=fr / 6)
            lst = list(s) if i % 2 == 0 else list(reversed(s))
            out.append({
                "id": f"ms-{i}-{fr}-{ad}", "group": f"g{len(out) % 16}",
                "cfg": {"final": 1.0, "dt": dict(base, milestones=lst)}, "depth": 5 if big else 3,
            })
    for i, s in enumerate(subs):
        if len(s) > 2 and not big:
            continue
        for fr, ad in itertools.product((0.19, 2.0), (0, 1)):
            base = {"initial_value": fr}
            if ad:
                base.update(stepsize_change_ratio=1.7, dt_min=fr / 6)
            for k, split in enumerate(([s], [s[:1], s[1:]], "mix", "plain")):
                cfg = {"final": 1.0, "dt": dict(base)}
                if split == "mix":
                    cfg["dt"]["milestones"] = [0.6, 0.2]
                    cfg["txt"] = [list(reversed(s))]
                elif split == "plain":
                    if ad:
                        continue
                    cfg["txt"], cfg["plain"] = [list(s)], True
                else:
                    cfg["txt"] = [list(x) for x in split if x]
                out.append({"id": f"txt-{i}-{fr}-{ad}-{k}", "group": f"g{len(out) % 16}", "cfg": cfg,
                            "depth": 1 if not big else 4})
    for fin in (1e-9, 3e7):
        for ms in ([0.2, 0.2001, 0.7], [0.5, 1.0, 2.0], [0.999], [0.3, 0.3, 0.6]):
            for fr in (0.09, 0.4, 2.0):
                out.append({
                    "id": f"scale-{fin:g}-{ms}-{fr}", "group": f"g{len(out) % 16}",
                    "cfg": {"final": fin, "dt": {
                        "initial_value": fr * fin, "stepsize_change_ratio": 1.7,
                        "dt_min": fr * fin / 6, "milestones": [m * fin for m in ms]}},
                    "depth": 3 if not big else 5,
                })
    # milestones reached by accumulating a stepsize
    for h, n in ((0.1, 9), (0.1, 3), (0.7, 7), (1e-3, 20)):
        ms = [h * k for k in range(1, n + 1)]
        out.append({"id": f"acc-{h}-{n}", "group": "acc", "depth": 2,
                    "cfg": {"final": h * (n + 0.5), "dt": {"initial_value": h, "milestones": ms}}})
    from mc.longruns import long_runs

    for i, (name, cfg) in enumerate(long_runs(tier)):
        out.append({"id": f"long-{name}", "group": f"long{i % 6}", "cfg": cfg, "long": 1, "cost": 6})
    return out


def run(case):
    from mc import stepping as st

    if case.get("long"):
        return st.explore_long(case["cfg"], [st.check_milestones])
    def columns(r):
        bad = []
        if r.end is None:
            for e, ts in zip(r.txt, r.cfg.get("txt", [])):
                want = len({t for t in ts})
                if e.data.shape[1] - 1 != want:
                    bad.append(f"text export of {want} times has {e.data.shape[1] - 1} columns")
        return bad

    return st.explore(case["cfg"], case["depth"], [st.check_milestones, columns], tails=("a",))
