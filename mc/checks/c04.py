"""An attempt that did not converge leaves no trace in the solution."""

from mc import specs as S

BOUNDS = {
    "quick": "10 models (one per part of the physics) x all words of converged/failed answers of "
    "length 4 with at most 2 failures in a row; a failed attempt leaves arbitrary values in the unknowns",
    "thorough": "as quick with words of length 6",
}
ASSUMPTIONS = ["a failing nonlinear solve is simulated by overwriting the unknowns and reporting failure"]


def cases(tier):
    n = 6 if tier == "thorough" else 4
    out = []
    for name, sp in S.features().items():
        sp = dict(sp, dt=dict(S.ADAPT), final=0.5)
        for w in S.words("ax", n):
            if "xxx" in w or "x" not in w:
                continue
            out.append({"id": f"{name}-{w}", "group": name, "spec": sp, "script": w, "cost": 3})
        out.append({"id": f"{name}-none", "group": name, "spec": sp, "script": ""})
    # the answers of the heat transfer problem matter as well: slow answers in between
    return out


def run(case):
    from mc.explore import run_model

    return run_model(case)
