"""Conservation of chemical potential: continuous potential, and concentrations
that jump at the interfaces as the solubilities require."""

import copy
import itertools

from mc import specs as S

BOUNDS = {
    "quick": "all assignments of the two solubility laws to 1, 2 and 3 materials (and 2 in three subdomains) x 5 kinds of temperature x {steady (Sieverts), "
    "transient} x {cartesian, cylindrical, spherical}, with boundary conditions of 4 kinds, with and without Soret, sources, traps (Sieverts) in 1D; 2D; 3D",
    "thorough": "as quick, all combinations of boundary conditions, Soret and traps",
}
ASSUMPTIONS = ["concentrations are reported in discontinuous piecewise linear functions (projections of solubility x potential)"]

TEMPS = {
    "uniform": 330.0,
    "space": "300+40*x",
    "time": "300+40*x+35*t",
    "heat": {"transient": True, "init": "320+30*x"},
    "steadyheat": {"transient": False},
}
LEFT = [
    {"type": "dirichlet", "value": "2.0+0.5*t", "surf": [1]},
    {"type": "sieverts", "S": [1.2, 0.03], "P": "2.0+t", "surf": [1]},
    {"type": "henrys", "H": [1.2, 0.03], "P": "2.0+t", "surf": [1]},
    {"type": "flux", "value": "0.8", "surf": [1]},
]
RIGHT = [
    {"type": "recomb", "Kr": 0.6, "E": 0.03, "order": 2, "surf": [2]},
    {"type": "dirichlet", "value": "1.0", "surf": [2]},
    {"type": "mass", "h": 0.6, "c_ext": 0.3, "surf": [2]},
]


def still(b):
    return {k: (v.replace("+0.5*t", "").replace("+t", "") if isinstance(v, str) else v) for k, v in b.items()}


def spec(coord, laws, T, tr, left, right, soret=0, traps=0, src=1, rect=False):
    sp = {"coord": coord}
    n = len(set(laws)) if rect else len(laws)
    if rect:
        sp["rect"], sp["x0"] = [2, 2], 0.0 if coord == "cartesian" else 1.0
        n = len(laws)
    else:
        sp["verts"] = S.V if coord == "cartesian" else S.VR
    o = 0.0 if coord == "cartesian" else 1.0
    cuts = {1: [o + 1.0], 2: [o + 0.5, o + 1.0], 3: [o + 0.25, o + 0.6, o + 1.0]}[n]
    m = []
    lo = 0
    for i, l in enumerate(laws):
        q = S.therm(i + 1, S=S.SOL[i + 1])
        if l == "h":
            q["law"] = "henry"
        if n > 1 and not rect:
            q["borders"] = [lo, cuts[i]]
            lo = cuts[i]
        if soret:
            q["Q"] = ["0.12+0.0001*T", "-0.2", 0.1][i]
        m.append(q)
    sp["mats"] = m
    sp["T"] = TEMPS[T]
    sp["settings"] = {"chemical_pot": True, "transient": bool(tr), "soret": bool(soret)}
    sp["bcs"] = [left, right] if tr else [still(left), still(right)]
    if T in ("heat", "steadyheat"):
        v = "320+40*t" if T == "heat" else 320.0
        sp["bcs"] = sp["bcs"] + [{"type": "dirichlet", "field": "T", "value": v, "surf": [1]},
                                 {"type": "flux", "field": "T", "value": 30.0, "surf": [2]}]
    if traps:
        sp["traps"] = [S.trap(1, [0]), S.trap(2, list(range(n)))][:traps]
        sp["settings"]["traps_element_type"] = "DG"
    if src:
        sp["srcs"] = [{"type": "source", "value": 0.5, "field": 0, "vol": [1]}]
        if traps:
            sp["srcs"].append({"type": "decay", "lam": 0.3, "field": "all", "vol": [1]})
    if tr:
        sp["ics"] = [{"field": 0, "value": "1.5+x"}]
        sp["final"], sp["dt"] = 0.4, {"initial_value": 0.2}
    return sp


def cases(tier):
    out = []
    big = tier == "thorough"

    def add(name, sp, group=None):
        out.append({"id": name, "spec": sp, "group": group or name, "cost": 4})

    words = [w for n in (1, 2, 3) for w in S.words("sh", n)]
    k = 0
    for coord, w, T, tr in itertools.product(("cartesian", "cylindrical", "spherical"), words, TEMPS, (0, 1)):
        if T in ("time", "heat") and not tr:
            continue
        if "h" in w and not tr:  # Newton's method has a singular start there (theta = 0): no claim
            continue
        if len(w) == 3 and not (w in ("shs", "hsh") and coord == "cartesian"):
            continue
        if coord != "cartesian" and (T in ("uniform", "steadyheat") or len(w) == 1):
            continue
        k += 1
        combos = itertools.product(range(4), range(3), (0, 1)) if big else [(k % 4, k % 3, (k // 2) % 2)]
        for l, r, so in combos:
            if not tr and (l, r) == (3, 0):  # nothing fixes the concentration in the first iteration
                r = 1
            add(f"{coord}-{w}-{T}-{tr}-{l}{r}{so}", spec(coord, w, T, tr, LEFT[l], RIGHT[r], soret=so), f"{coord}{w}{so}")
        if "h" not in w:
            for nt in (1, 2):
                add(f"{coord}-{w}-{T}-{tr}-t{nt}", spec(coord, w, T, tr, LEFT[k % 3], RIGHT[1 + k % 2], traps=nt), f"{coord}{w}{nt}")
    for coord, w, so in itertools.product(("cartesian", "cylindrical"), ("ss", "sh", "hs"), (0, 1)):
        sp = spec(coord, w, "time", 1, LEFT[0], RIGHT[2], soret=so, rect=True)
        add(f"2d-{coord}-{w}-{so}", sp)
        if coord == "cartesian" and (so or tier == "thorough"):
            q = copy.deepcopy(sp)
            q["rect"] = [2, 1, 1]
            add(f"3d-{w}-{so}", q)
    # a material in several subdomains
    for w, T in itertools.product(("ss", "sh", "hs"), ("space", "time")):
        sp = spec("cartesian", w, T, 1, LEFT[0], RIGHT[0])
        sp["mats"][0].update(id=[1, 3], borders=[[0, 0.25], [0.6, 1.0]])
        sp["mats"][1].update(borders=[0.25, 0.6])
        add(f"sub-{w}-{T}", sp)
    for w, T in itertools.product(("s", "ss"), ("space", "time")):
        sp = spec("cartesian", w, T, 1, LEFT[0], RIGHT[0])
        sp["bcs"] = [dict(S.KIN, surf=[2]), LEFT[0]]
        add(f"kin-{w}-{T}", sp)
    return out


def run(case):
    import numpy as np
    from mc.build import Run, check_trajectory

    sp = case["spec"]
    r = Run(sp)
    r.initialise()
    r.run()
    g, ref = r.grid, r.ref
    # a solubility at a steady temperature is represented by a piecewise linear function
    tol = 3e-4 if isinstance(sp["T"], str) and "t" not in sp["T"] or isinstance(sp["T"], dict) and not sp["T"]["transient"] else 2e-5
    bad, worst, n = check_trajectory(r, tol=tol)
    if n == 0:
        bad.append("no state")
    # reported concentration: the projection of S theta (or S theta^2) in every cell
    M = np.einsum("q,qi,qj->ij", g.wref, g.lam, g.lam)
    Mi = np.linalg.inv(M)
    for row in r.rows:
        Tq = g.at_q(row["T"])
        cq = ref.conc_q(row["w"], Tq)
        exp = np.einsum("q,cq,qi->ci", g.wref, cq, g.lam) @ Mi.T
        e = float(np.max(np.abs(row["c"] - exp) / np.abs(exp).max()))
        worst = max(worst, e if e <= tol else 0)
        if not e <= tol:
            bad.append(f"reported concentration: discrepancy {e:.2e} at t={row['t']}")
        # the potential is the same on both sides of every vertex
        for v in range(len(g.x)):
            vals = [float(row["w"][c][list(g.cells[c]).index(v)]) for c in range(len(g.cells)) if v in g.cells[c]]
            if max(vals) - min(vals) > 1e-10 * max(map(abs, vals)):
                bad.append(f"the potential jumps at {g.x[v]}: {vals}")
                break
        # integral balance of the reported concentration itself
        a = float((g.at_q(row["c"]) * g.wq).sum())
        b = float((cq * g.wq).sum())
        if abs(a - b) > 1e-5 * abs(b):
            bad.append(f"inventory of the reported concentration {a}, of the solved one {b}")
    return {"violations": bad[:5], "worst": worst, "states": n, "transitions": n, "traces": 1,
            "outcome": f"{n}:{float(np.sum(r.rows[-1]['c'])):.6g}" if r.rows else "none"}
