"""Configurations of the time stepping with many steps, many milestones (plain data)."""


def long_runs(tier):
    """configurations of many steps, many milestones, many answers"""
    out = []
    # (the last: a number of steps whose accumulated rounding matters)
    for fin, n in ((1.0, 1000), (3e7, 700), (1e-9, 999), (0.3, 3000 if tier == "thorough" else 600)):
        h = fin / n
        out.append((f"const-{n}", {"final": fin, "dt": {"initial_value": h}}))
        out.append((f"const-{n}-ms", {"final": fin, "dt": {"initial_value": h, "milestones": [fin * k / 23 for k in range(1, 24)]}}))
        out.append((f"adapt-{n}-ms", {"final": fin, "dt": {"initial_value": h, "stepsize_change_ratio": 1.1, "dt_min": h / 1e6,
                                                           "milestones": [fin * (1 - k / 17) for k in range(17)], "max_stepsize": 3 * h}}))
    ms = [0.01 * k for k in range(1, 100)]
    out.append(("int", {"final": 100, "dt": {"initial_value": 1, "milestones": [7, 3, 50, 100, 3, 99]}}))
    out.append(("int-adapt", {"final": 100, "dt": {"initial_value": 1, "stepsize_change_ratio": 2, "dt_min": 1e-3, "milestones": [7, 3, 50, 100, 3, 99]}}))
    out.append(("hundred", {"final": 1, "dt": {"initial_value": 0.2, "milestones": ms[::-1]}}))
    out.append(("hundred-adapt", {"final": 1, "dt": {"initial_value": 0.2, "stepsize_change_ratio": 1.3, "dt_min": 1e-9, "milestones": ms[1::2] + ms[::2]}}))
    out.append(("dup", {"final": 1, "dt": {"initial_value": 0.2, "milestones": [0.5, 0.5, 1.0, 0.5, 1.0, 0.25, 1.5, 0.25]}}))
    out.append(("zero", {"final": 1, "dt": {"initial_value": 0.3, "milestones": [0.0, 0.55, 0]}}))
    out.append(("zero-adapt", {"final": 1, "dt": {"initial_value": 0.3, "stepsize_change_ratio": 1.3, "dt_min": 1e-9, "milestones": [0.0, 0.55, 1, 0]}}))
    for tiny in (1e-3, 3e-5):
        out.append((f"near-{tiny}", {"final": 1.0, "dt": {"initial_value": 0.3, "stepsize_change_ratio": 1.5, "dt_min": 1e-12,
                                                           "milestones": [tiny, 0.5, 0.5 * (1 + tiny), 1 - tiny]}}))
    return out
