"""A field is the same field wherever and however it is named."""

import itertools

from mc import specs as S

BOUNDS = {
    "quick": "7 schemes of trap ids (2 or 3 traps) x {initial condition, source, boundary condition, everything} x each trap "
    "x {int, str}; all names of the mobile field; all export kinds for all names of all fields; 12 traps, ids of one and two digits that contain each other",
    "thorough": "as quick with all pairs of objects",
}
ASSUMPTIONS = ["ids that are not given are read back from the traps after initialisation"]

SCHEMES = {
    "auto": [None, None], "12": [1, 2], "21": [2, 1], "53": [5, 3], "n1": [None, 1], "2n": [2, None],
    "n7n": [None, 7, None], "312": [3, 1, 2], "1n": [1, None], "n2": [None, 2],
    "101": [10, 1], "111": [1, 11, 10],
}


def cases(tier):
    out = []
    for name, ids in SCHEMES.items():
        for kind, al in itertools.product(("ic", "src", "bc", "all"), ("int", "str")):
            for k in range(len(ids)):
                if ids[k] is None and name != "auto":
                    continue
                out.append({"id": f"{name}-{kind}-{al}-{k}", "ids": ids, "kind": kind, "alias": al, "k": k,
                            "group": f"{len(ids)}-{kind}-{k}", "cost": 3})
        out.append({"id": f"{name}-exports", "ids": ids, "kind": "exports", "group": f"{len(ids)}-exports", "cost": 4})
    # one- and two-digit ids that begin alike
    for name, ids in (("auto12", [None] * 12), ("big12", [12, 1, 100, 10, 2, 11, 21, 20, 3, 101, 110, 22])):
        out.append({"id": f"{name}", "ids": ids, "kind": "many", "group": "many", "cost": 40})
    for kind in ("ic", "src", "bc"):
        for al in (0, "0", "solute", "mobile"):
            if (kind == "bc" and al in ("solute", "mobile")) or (kind == "ic" and al == "mobile"):
                continue
            for flux in (0, 1):
                if flux and kind != "bc":
                    continue
                out.append({"id": f"mobile-{kind}-{al!r}-{flux}", "ids": [None], "kind": "mobile-" + kind, "mobile": al,
                            "flux": flux, "group": "mobile", "cost": 3})
    for vol in ([1], [1, 2]):
        for fld in ("all", 0, "0", "solute", 1, "1", 2, "2"):
            out.append({"id": f"decay-{fld!r}-{vol}", "ids": [None, None], "kind": "decay", "field": fld, "vol": vol,
                        "group": "decay", "cost": 3})
    return out


def spec_of(case):
    ids = case["ids"]
    if case["kind"] == "many":
        return S.many(ids)
    traps = [S.trap(i + 1, [0], id=d) for i, d in enumerate(ids)]
    sp = S.base(T="300+30*t", traps=traps, final=0.4, dt={"initial_value": 0.2},
                bcs=[{"type": "dirichlet", "value": 1.0, "surf": [1]}], ics=[{"field": 0, "value": "1.0+x"}])
    k = case["kind"]
    if k in ("ic", "src", "bc", "all"):
        i = ids[case["k"]] if ids[case["k"]] is not None else case["k"] + 1
        i = str(i) if case["alias"] == "str" else i
        if k in ("ic", "all"):
            sp["ics"] = sp["ics"] + [{"field": i, "value": "0.3+0.1*x"}]
        if k in ("src", "all"):
            sp["srcs"] = [{"type": "source", "value": "0.7+t", "field": i, "vol": [1]}]
        if k in ("bc", "all"):
            sp["bcs"] = sp["bcs"] + [{"type": "dirichlet", "value": "0.2+t", "field": i, "surf": [2]}]
    elif k == "mobile-ic":
        sp["ics"] = [{"field": case["mobile"], "value": "1.0+x"}]
    elif k == "mobile-src":
        sp["srcs"] = [{"type": "source", "value": "0.7+t", "field": case["mobile"], "vol": [1]}]
    elif k == "mobile-bc":
        if case["flux"]:
            sp["bcs"] = sp["bcs"] + [{"type": "flux", "value": 0.4, "field": case["mobile"], "surf": [2]}]
        else:
            sp["bcs"] = sp["bcs"] + [{"type": "dirichlet", "value": 0.4, "field": case["mobile"], "surf": [2]}]
    elif k == "decay":
        m = [S.mat(1, borders=[0, 0.5]), S.mat(2, borders=[0.5, 1.0])]
        sp["mats"] = m
        for t in sp["traps"]:
            t["mats"] = [0, 1]
        sp["settings"] = {"traps_element_type": "DG"}
        sp["srcs"] = [{"type": "decay", "lam": 0.4, "field": case["field"], "vol": case["vol"]}]
        sp["ics"] = sp["ics"] + [{"field": 1, "value": 0.4}, {"field": 2, "value": 0.3}]
    return sp


def run(case):
    import festim as F
    import numpy as np
    from mc import build as B
    from mc.explore import outcome
    from mc.refmodel import RefModel

    sp = spec_of(case)
    ids = case["ids"]
    # the ids of the traps, once they are known
    probe = B.Run(sp, observe=False)
    probe.initialise()
    got = [t.id for t in probe.traps]
    bad = []
    if len(set(map(str, got))) != len(got):
        bad.append(f"ids {ids} became {got}: not unique")
    if any(a is not None and a != b for a, b in zip(ids, got)):
        bad.append(f"ids {ids} became {got}")
    if all(a is None for a in ids) and got != list(range(1, len(ids) + 1)):
        bad.append(f"automatic ids {got}")
    if bad:
        return {"violations": bad, "states": 1, "transitions": 1, "traces": 1}
    sp2 = dict(sp, obs_ids=got, traps=[dict(t, id=g) for t, g in zip(sp["traps"], got)])
    ex, groups = [], []
    if case["kind"] == "exports":
        names = [[0, "0", "solute"], ["T"], ["retention"]] + [[g, str(g)] for g in got]
        for fi, al in enumerate(names):
            g = []
            for ai, a in enumerate(al):
                q = [F.TotalVolume(a, 1), F.AverageVolume(a, 1), F.MaximumVolume(a, 1), F.MinimumVolume(a, 1),
                     F.TotalSurface(a, 2), F.AverageSurface(a, 2), F.PointValue(a, 0.3), F.MaximumSurface(a, 2),
                     F.MinimumSurface(a, 1)]
                if a in (0, "0", "solute"):
                    q.append(F.SurfaceFlux(a, 2))
                d = F.DerivedQuantities(q)
                t = F.TXTExport(a, filename=f"f{fi}-{ai}.txt")
                x = F.XDMFExport(a, label="u", filename=f"f{fi}-{ai}.xdmf")
                ex += [d, t, x]
                g.append((a, d, t, f"f{fi}-{ai}.xdmf"))
            groups.append(g)
    r = B.Run(dict(sp, obs_ids=got), extra_exports=ex)
    r.ref = RefModel(sp2, r.grid)
    r.initialise()
    r.run()
    r.sp = sp2
    b2, worst, n = B.check_trajectory(r, tol=5e-6)
    bad += b2
    # fields in the order of `names`: every alias must hold the values of its field
    for fi, g in enumerate(groups):
        rows = []
        for row in r.rows:
            vals = [row["c"], row["T"], row["c"] + sum(row["traps"])] + row["traps"]
            rows.append(vals[fi])
        h = np.abs(r.grid.x[r.grid.cells[:, 1], 0] - r.grid.x[r.grid.cells[:, 0], 0])
        for a, d, t, xf in g:
            for k, v in enumerate(rows):
                tot = float(np.sum(h * v.mean(axis=1)))
                res = d.data[k + 1][1:]
                exp = [tot, tot, float(v.max()), float(v.min())]
                if any(abs(p - q) > 1e-7 * abs(q) + 1e-10 for p, q in zip(res, exp)):
                    bad.append(f"quantities of field {a!r}: {res[:4]} instead of {exp}")
                col = t.data[:, k + 1]
                x = t.data[:, 0]
                xs = r.grid.x[r.grid.cells][..., 0].ravel()
                want = np.array([v.ravel()[int(np.argmin(np.abs(xs - p)))] for p in x])
                if np.max(np.abs(col - want)) > 1e-7 * np.max(np.abs(want)) + 1e-10:
                    bad.append(f"text export of field {a!r} differs from the field")
                import fenics as f

                V = f.FunctionSpace(r.sim.mesh.mesh, "DG" if fi == 2 else "CG", 1)
                u = f.Function(V)
                with f.XDMFFile(xf) as fl:
                    fl.read_checkpoint(u, "u", k)
                got_v = r.vals(u)
                if np.max(np.abs(got_v - v)) > 1e-7 * np.max(np.abs(v)) + 1e-10:
                    bad.append(f"XDMF export of field {a!r} differs from the field")
            if d.data[1:] != g[0][1].data[1:]:
                bad.append(f"quantities of field {a!r} and {g[0][0]!r} differ")
    return {"violations": bad[:4], "worst": worst, "states": n, "transitions": n * max(1, len(ex)), "traces": 1,
            "outcome": outcome(r)}
