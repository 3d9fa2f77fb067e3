"""Exported files hold the exported fields: positions, values, times and labels."""

import itertools

from mc import specs as S

BOUNDS = {
    "quick": "all combinations of {1 material, 2 materials in every order of declaration, 3 with one in two subdomains, 2 in five subdomains} x {0, 1, 2 traps} x {CG, DG} x {chemical potential off, on} x {transient, "
    "steady} in 1D on vertices given in increasing, decreasing and shuffled order with repetitions, in 3 coordinate systems, 2D, 3D, in lengths of 1e-9 to 1e3; times and labels of files of up to 3 fields and 3 times; in each of them every field x every name x text exports with "
    "and without filter in 3 header formats, XDMF with and without checkpoint, default and given labels, file names and folders, tables with and without units, densities of every kind of trap, ids of one to three digits; every step; other units of time; runs of 13 steps",
    "thorough": "as quick, all orders of the vertices for every combination",
}
ASSUMPTIONS = ["the values of the fields themselves are those observed at the step (other properties decide them)"]

ORDERS = {
    "inc": S.V,
    "dec": S.V[::-1],
    "mix": [0.5, 0.1, 0.0, 0.8, 0.25, 0.1, 1.0, 0.6, 0.4, 0.5],
}


def spec(nm, nt, el, cp, tr, order, coord="cartesian", dim=1, kinds=None):
    if nm == 1:
        m = [S.mat(1)]
    elif nm in (2, -2):
        m = [S.mat(1, borders=[0, 0.4]), S.mat(2, borders=[0.4, 1.0])]
    elif nm == 5:
        # five layers of two materials
        m = [S.mat(1, borders=[[0, 0.1], [0.25, 0.5], [0.8, 1.0]]), S.mat(2, borders=[[0.5, 0.8], [0.1, 0.25]])]
        m[0]["id"], m[1]["id"] = [5, 1, 3], [2, 4]
    else:
        m = [S.mat(1, borders=[0, 0.25]), S.mat(2, borders=[[0.25, 0.4], [0.6, 1.0]]), S.mat(3, borders=[0.4, 0.6])]
        m[1]["id"] = [2, 4]
    if cp:
        for i, q in enumerate(m):
            q["S"] = S.SOL[i + 1]
    n = len(m)
    traps = [S.trap(1, [0], dens="1.0+0.5*x" + ("+t" if tr else "")), S.trap(2, list(range(n)), id=5)][:nt]
    if nt == 2 and n > 1:
        # one set of parameters per material
        traps[1].update(k=[0.8 + 0.1 * i for i in range(n)], E_k=[0.02] * n, p=[0.4] * n, E_p=[0.01] * n,
                        dens=[["0.6+x", 0.9, "0.5+0.7*t" if tr else 0.5][i] for i in range(n)])
    if kinds:
        traps = [dict(S.trap(1, [0]), kind="extrinsic", prm=S.EXTRINSIC), dict(S.trap(2, [0]), kind="neutron", prm=S.NEUTRON), S.trap(3, [0], dens="0.9+t*x")]
        traps = [traps[i] for i in kinds]
    sp = S.base(mats=m, traps=traps, T="300+40*x" + ("+25*t" if tr else ""), verts=ORDERS[order], coord=coord,
                bcs=[{"type": "dirichlet", "value": "2.0+0.5*t" if tr else 2.0, "surf": [2]}, {"type": "mass", "h": 0.6, "c_ext": 0.3, "surf": [1]}],
                settings={"transient": bool(tr), "traps_element_type": el})
    if nm == -2:
        # declared from right to left
        sp["mats"] = m[::-1]
        for t in sp["traps"]:
            t["mats"] = [1 - i for i in t["mats"]]
    if cp:
        sp["settings"]["chemical_pot"] = True
    if dim > 1:
        sp.pop("verts")
        sp["rect"] = [2, 2] if dim == 2 else [1, 1, 1]
        for q in sp["mats"]:
            q.pop("borders", None)
    if coord != "cartesian":
        # away from the axis
        sp["verts"] = [0.0] + [1.0 + v for v in sp["verts"]]
        for q in sp["mats"]:
            if "borders" in q:
                b = q["borders"]
                up = lambda v: 1.0 + v if v else 0.0
                q["borders"] = [[up(a) for a in p] for p in b] if isinstance(b[0], list) else [up(a) for a in b]
    if tr:
        sp["ics"] = [{"field": 0, "value": "1.0+x"}]
        sp["final"], sp["dt"] = 0.6, {"initial_value": 0.2}
    else:
        sp.pop("final"), sp.pop("dt")
    return sp


def cases(tier):
    out = []
    big = tier == "thorough"
    for i, (nm, nt, el, cp, tr) in enumerate(itertools.product((1, 2, -2, 3), (0, 1, 2), ("CG", "DG"), (0, 1), (0, 1))):
        if nt == 0 and el == "DG":
            continue
        for j, order in enumerate(ORDERS):
            if big or (i + i // 3 + i // 12) % 3 == j:
                out.append({"id": f"m{nm}-t{nt}-{el}-cp{cp}-tr{tr}-{order}", "cost": 2 + 2 * nt + abs(nm), "group": f"{nm}{nt}{el}{cp}",
                            "spec": spec(nm, nt, el, cp, tr, order)})
    for coord, nm, order in itertools.product(("cylindrical", "spherical"), (1, 2, 3), ORDERS):
        out.append({"id": f"{coord}-{nm}-{order}", "cost": 6, "group": f"{coord}{nm}", "spec": spec(nm, 1, "DG", 0, 1, order, coord=coord)})
    for nt, el, tr in itertools.product((0, 1, 2), ("CG", "DG"), (0, 1)):
        out.append({"id": f"2d-t{nt}-{el}-{tr}", "cost": 6, "group": "2d", "spec": spec(1, nt, el, 0, tr, "inc", dim=2)})
        if nt == 1 and tr:
            out.append({"id": f"3d-t{nt}-{el}-{tr}", "cost": 8, "group": "3d", "spec": spec(1, nt, el, 0, tr, "inc", dim=3)})
    for nt, el, cp, order in itertools.product((0, 1, 2), ("CG", "DG"), (0, 1), ORDERS):
        if big or (nt, el) in ((0, "CG"), (1, "DG")) and order != "inc":
            out.append({"id": f"five-t{nt}-{el}-cp{cp}-{order}", "cost": 6, "group": f"five{nt}{el}{cp}", "spec": spec(5, nt, el, cp, 1, order)})
    # metres, micrometres, nanometres
    for L, (nm, nt, el, cp, tr), order in itertools.product((1e-3, 1e-6, 1e-9, 1e3), ((1, 1, "DG", 0, 1), (2, 1, "DG", 0, 1), (-2, 0, "CG", 1, 1), (3, 1, "DG", 1, 1), (3, 1, "CG", 0, 0)), ORDERS):
        if big or order == ("mix" if nm == 3 else "dec" if L < 1e-5 else "inc"):
            out.append({"id": f"scale{L:g}-m{nm}-t{nt}-{el}-cp{cp}-tr{tr}-{order}", "cost": 6, "group": f"{nm}{nt}{el}{cp}",
                        "spec": S.rescaled(spec(nm, nt, el, cp, tr, order), L)})
    # other units of time: more steps than digits in the header, clocks of nanoseconds and years
    for tau, (nm, nt, el, cp), order in itertools.product((1e-8, 1e-3, 3e7), ((1, 1, "DG", 0), (-2, 1, "DG", 0), (3, 0, "CG", 1)), ORDERS):
        if big or order == "mix":
            out.append({"id": f"time{tau:g}-m{nm}-t{nt}-{el}-cp{cp}-{order}", "cost": 6, "group": f"{nm}{nt}{el}{cp}",
                        "spec": S.rescaled(spec(nm, nt, el, cp, 1, order), 1.0, tau)})
    sp = spec(1, 1, "CG", 0, 1, "mix")
    sp["final"] = 2.5
    out.append({"id": "steps", "cost": 8, "group": "11CG0", "spec": sp})
    for ks in itertools.permutations((0, 1, 2)):
        for el in ("CG", "DG"):
            out.append({"id": f"kinds-{ks}-{el}", "cost": 8, "group": "kinds", "spec": spec(1, 0, el, 0, 1, "inc", kinds=ks)})
    # ids of several digits
    for ids, el in itertools.product(((1, 10, 21), (12, 1, 2), (100, 10, 1)), ("CG", "DG")):
        sp = spec(1, 0, el, 0, 1, "inc")
        sp["traps"] = [S.trap(j + 1, [0], id=i) for j, i in enumerate(ids)]
        out.append({"id": f"ids-{ids}-{el}", "cost": 8, "group": f"ids{el}", "spec": sp})
    # files of several fields
    for nl, nt in itertools.product((1, 2, 3), (1, 2, 3)):
        out.append({"id": f"labels-{nl}-{nt}", "labels": nl, "times": nt, "cost": 1, "group": "labels"})
    return out


def run_labels(case):
    """times and labels of files with several fields"""
    import fenics as f
    import festim as F

    bad, n = [], 0
    for names in itertools.permutations(("c", "retention", "1"), case["labels"]):
        for ts in itertools.permutations((1.5e-9, 0.25, 3e7), case["times"]):
            n += 1
            fn = f"labels{n}.xdmf"
            V = f.FunctionSpace(f.UnitSquareMesh(1, 1), "CG", 1)
            with f.XDMFFile(fn) as g:
                g.parameters["functions_share_mesh"] = True
                g.parameters["rewrite_function_mesh"] = False
                for t in ts:
                    for v in names:
                        u = f.Function(V)
                        u.rename(v, v)
                        g.write(u, t)
            got = F.extract_xdmf_times(fn), F.extract_xdmf_labels(fn)
            if sorted(got[1]) != sorted(names):
                bad.append(f"labels {got[1]}, expected {names}")
            if len(got[0]) != len(ts) or any(abs(a - b) > 1e-9 * b for a, b in zip(got[0], ts)):
                bad.append(f"times {got[0]}, expected {ts}")
    return {"violations": bad[:3], "states": n, "transitions": n, "traces": n, "outcome": f"labels{n}"}


FMT = {".2e": "{:.2e}", ".6f": "{:.6f}", ".3g": "{:.3g}"}


def run(case):
    import os
    import re
    import xml.etree.ElementTree as ET

    import fenics as f
    import festim as F
    import numpy as np
    from mc import build as B
    from mc.refmodel import val

    if "labels" in case:
        return run_labels(case)
    sp = case["spec"]
    st = sp["settings"]
    tr = st["transient"]
    dim = len(sp.get("rect", [1]))
    L = sp.get("L", 1.0)
    dg = st.get("chemical_pot", False) or st["traps_element_type"] == "DG"
    # the ids of the traps (C11 decides them)
    probe = B.Run(sp, observe=False)
    probe.initialise()
    full = [t.id for t in probe.traps]
    sp = dict(sp, obs_ids=full)
    r = B.Run(sp)
    names = [("solute", [0, "0", "solute"]), ("T", ["T"]), ("retention", ["retention"])] + [(i, [i, str(i)]) for i in full]
    txt, xd, tab = [], [], []
    k = 0
    for key, al in names:
        for a in al:
            k += 1
            if dim == 1:
                for flt, fm in ((True, ".2e"), (False, ".6f"), (True, ".3g")):
                    kw = {} if fm == ".2e" else {"header_format": fm}
                    if not flt:
                        kw["filter"] = False
                    fn = f"txt{k % 2}/d/{k}-{flt}-{fm[1:]}.txt" if k % 3 else f"{k}-{flt}-{fm[1:]}.txt"
                    txt.append((key, a, flt, fm, fn, F.TXTExport(a, filename=fn, **kw)))
            deflabel = {"solute": "mobile_concentration", "T": "temperature", "retention": "retention"}.get(key, f"trap_{key}_concentration")
            # default label and file name, in a folder of its own; given label and file name
            for ck in (True, False):
                xd.append((key, a, ck, deflabel, f"x{k}{ck}/{deflabel}.xdmf", F.XDMFExport(a, folder=f"x{k}{ck}", checkpoint=ck)))
                xd.append((key, a, ck, f"my label {k}", f"y{k}-{ck}.xdmf", F.XDMFExport(a, label=f"my label {k}", filename=f"y{k}-{ck}.xdmf", checkpoint=ck)))
                xd.append((key, a, ck, f"lab{k}{ck}", f"lab{k}{ck}.xdmf", F.XDMFExport(a, label=f"lab{k}{ck}", checkpoint=ck)))
    dens = []
    for j, tp in enumerate(r.traps):
        for ck in (True, False):
            fn = f"dens{j}{ck}.xdmf"
            dens.append((j, ck, fn, F.TrapDensityXDMF(tp, label=f"density {j}", filename=fn, checkpoint=ck)))
    for un in (True, False):
        qs = [F.AverageVolume(a, 1) for _, al in names for a in al] + [F.PointValue("T", 0.3 * L if dim == 1 else (0.3, 0.6, 0.2)[:dim]), F.SurfaceFlux("solute", 2)]
        if "coord" in sp and sp["coord"] != "cartesian":
            qs = [q for q in qs if not isinstance(q, (F.SurfaceFlux, F.AverageVolume))] + [F.MaximumVolume(0, 1)]
        tab.append((un, F.DerivedQuantities(qs, filename=f"tab/{un}.csv", show_units=un)))
    r.sim.exports = list(r.sim.exports) + [t[-1] for t in txt] + [t[-1] for t in xd] + [t[-1] for t in dens] + [t[-1] for t in tab]
    # densities that evolve: kept step by step
    r.initialise()
    r.run()
    g, rows, me = r.grid, r.rows, r.sim.mesh.mesh
    bad, n = [], 0

    def field(row, key):
        if key == "solute":
            return row["c"]
        if key == "T":
            return row["T"]
        if key == "retention":
            return row["c"] + sum(row["traps"], 0.0)
        return row["traps"][full.index(key)]

    # -- text ----------------------------------------------------------
    inter = set()
    for m in sp["mats"]:
        b = m.get("borders")
        for v in np.ravel(b) if b else []:
            inter.add(float(v))
    lo, hi = float(g.x.min()), float(g.x.max())
    inter = {v for v in inter if lo < v < hi}
    tb = np.array([row["t"] for row in rows])
    for key, a, flt, fm, fn, e in txt:
        what = f"text export of {a!r}, filter {flt}"
        if not os.path.exists(fn):
            bad.append(f"{what}: no file {fn}")
            continue
        lines = open(fn).read().splitlines()
        head = "x" + "".join(f",t={FMT[fm].format(row['t'])}s" if tr else ",t=steady" for row in rows)
        if lines[0] != head:
            bad.append(f"{what}: header {lines[0]!r}, expected {head!r}")
            continue
        d = np.array([[float(v) for v in li.split(",")] for li in lines[1:]])
        if d.shape != np.shape(e.data) or not np.allclose(d, e.data, rtol=1e-15, atol=0):
            bad.append(f"{what}: the file does not hold the data of the export")
        want = []
        for i, x in enumerate(g.x[:, 0]):
            c = [j for j in range(len(g.cells)) if i in g.cells[j]]
            if not dg or (flt and not any(abs(x - v) < 1e-12 * L for v in inter)):
                want.append(x)
            else:
                want += [x] * len(c)
        want = np.sort(np.array(want))
        if len(d) != len(want) or np.abs(d[:, 0] - want).max() > 1e-12 * L:
            bad.append(f"{what}: positions {d[:, 0].tolist()}, expected {want.tolist()}")
            continue
        for kk, row in enumerate(rows):
            fv = field(row, key)
            sc = np.abs(fv).max() + 1e-300
            for x in sorted(set(d[:, 0])):
                v = int(np.argmin(np.abs(g.x[:, 0] - x)))
                al = np.array([fv[c][list(g.cells[c]).index(v)] for c in range(len(g.cells)) if v in g.cells[c]])
                got = d[d[:, 0] == x, kk + 1]
                n += 1
                if not dg and np.ptp(al) > 1e-7 * sc:
                    continue  # a discontinuous field has no value here in a continuous space
                if len(got) == len(al):
                    ok = np.abs(np.sort(got) - np.sort(al)).max() < 1e-7 * sc
                else:
                    ok = all(np.abs(al - q).min() < 1e-7 * sc for q in got)
                if not ok:
                    bad.append(f"{what}: {got.tolist()} at x={x}, step {kk + 1}, expected {al.tolist()}")

    # -- XDMF ----------------------------------------------------------
    def read(fn, label, ck, kk, times):
        """per-cell vertex values (checkpoint) or vertex values"""
        root = ET.parse(fn).getroot()
        at = [x for x in root.iter("Attribute")]
        if ck:
            x = at[0]
            V = f.FunctionSpace(me, {"Lagrange": "CG", "Discontinuous Lagrange": "DG"}.get(x.get("ElementFamily"), x.get("ElementFamily")), int(x.get("ElementDegree")))
            u = f.Function(V)
            with f.XDMFFile(fn) as xf:
                xf.read_checkpoint(u, label, kk)
            return r.vals(u)
        v = f.Vector(me.mpi_comm())
        h = f.HDF5File(me.mpi_comm(), fn.replace(".xdmf", ".h5"), "r")
        h.read(v, f"/VisualisationVector/{kk}", False)
        h.close()
        return v.get_local()

    def compare(what, fn, label, ck, vals, tol):
        nonlocal n
        if not os.path.exists(fn):
            bad.append(f"{what}: no file {fn}")
            return
        ts, lab = F.extract_xdmf_times(fn), F.extract_xdmf_labels(fn)
        if lab != [label]:
            bad.append(f"{what}: label {lab}, expected {label!r}")
            return
        if len(ts) != len(rows) or np.abs(np.array(ts) - tb).max() > 1e-6 * tb.max():
            bad.append(f"{what}: times {ts}, expected {tb.tolist()}")
            return
        for kk in range(len(rows)):
            got = read(fn, label, ck, kk, ts)
            w = vals[kk]
            sc = np.abs(w).max() + 1e-300
            n += 1
            if ck:
                e = np.abs(got - w).max() / sc
            else:
                # one of the values of the cells around each vertex
                e = 0.0
                if len(got) != len(g.x):
                    bad.append(f"{what}: {len(got)} values at {len(g.x)} vertices")
                    return
                near = [np.inf] * len(g.x)
                for c, cell in enumerate(g.cells):
                    for l, v in enumerate(cell):
                        near[v] = min(near[v], abs(got[v] - w[c][l]))
                e = max(near) / sc
            if e > tol:
                bad.append(f"{what}: differs from the field by {e:.1e} at step {kk + 1}")
                return

    for key, a, ck, label, fn, e in xd:
        compare(f"XDMF of {a!r} (checkpoint {ck}) in {fn}", fn, label, ck, [field(row, key) for row in rows], 1e-7)
    cg = st["traps_element_type"] != "DG"
    xv = g.x[g.cells]
    for j, ck, fn, e in dens:
        ts = sp["traps"][j]
        if cg and len(sp["mats"]) > 1:
            continue  # discontinuous densities in a continuous space: not exact
        vals = []
        for row in rows:
            if "prm" in ts:
                vals.append(row["dens"][j])
                continue
            v = np.zeros(g.cells.shape)
            for p, mi in enumerate(ts["mats"]):
                d = ts["dens"][p] if isinstance(ts["dens"], list) else ts["dens"]
                k_ = g.mask(sp["mats"][mi]["id"])
                v[k_] = val(d, xv, row["t"])[k_]
            vals.append(v)
        compare(f"density of trap {j} (checkpoint {ck})", fn, f"density {j}", ck, vals, 1e-7)

    # -- tables --------------------------------------------------------
    for un, q in tab:
        li = open(f"tab/{un}.csv").read().splitlines()
        n += 1
        q.show_units = un
        if li[0] != ",".join(q.make_header()) or any(("(" in re.sub(r"value at \(.*?\)", "", c)) != un for c in q.make_header()[1:]):
            bad.append(f"table, units {un}: header {li[0]!r}")
        d = np.array([[float(v) for v in x.split(",")] for x in li[1:]])
        w = np.array([[row["t"]] + [s.data[kk] for s in q] for kk, row in enumerate(rows)])
        if d.shape != w.shape or not np.allclose(d, w, rtol=1e-12, atol=0):
            bad.append(f"table, units {un}: {d.tolist()}, expected {w.tolist()}")
    return {"violations": bad[:6], "worst": 0.0, "states": len(rows) * (len(txt) + len(xd) + len(dens) + len(tab)), "transitions": n, "traces": 1,
            "outcome": f"{len(rows)}:{len(txt)}:{len(inter)}:{dg}"}
