"""Derived quantities are what they are documented to be, of the fields of
their step."""

import itertools
import math

from mc import specs as S

BOUNDS = {
    "quick": "all combinations of {cartesian, cylindrical, spherical} x {1, 2 materials, 2 with chemical potential} x {0, 1, 2 traps} x {Soret "
    "off, on} x {prescribed, computed temperature} in 1D (2D: cartesian and cylindrical; 3D: cartesian), steady and transient; in each of them every kind of quantity "
    "x every field x every name of the field x every volume and surface x several angle ranges, at every step; lengths of 1e-11 to 1e3; fields that are negative or change sign; every combination of the criteria of filter()",
    "thorough": "as quick, all combinations steady and transient and on a second mesh",
}
ASSUMPTIONS = ["the values of the fields themselves are those observed at the step (other properties decide them)"]

RANGES = [None, (0.3, 1.9)]


def spec(coord, nm, nt, soret, heat, tr, dim=1, mesh=0):
    cp = nm == 3
    sp = {"coord": coord}
    nmat = 2 if nm > 1 else 1
    if dim == 1:
        sp["verts"] = S.V if coord == "cartesian" else S.VR
        if mesh:
            sp["verts"] = [sp["verts"][0] + v for v in (0, 0.3, 0.5, 0.55, 0.9, 1.0)]
        if nmat == 2 and coord != "cartesian":
            sp["verts"] = [0.0, 0.5, 1.0, 1.2, 1.4, 1.5, 1.7, 2.0]
        L = max(sp["verts"])
        mid = 0.5 if coord == "cartesian" else 1.5
    else:
        sp["rect"] = [2, 1, 1] if dim == 3 else [2, 3] if mesh else [2, 2]
        sp["x0"] = 0.0 if coord == "cartesian" else 1.0
    m = [S.therm(1), S.therm(2)][:nmat]
    for i, q in enumerate(m):
        if dim == 1 and nmat == 2:
            q["borders"] = [[0, mid], [mid, L]][i]
        if soret:
            q["Q"] = ["0.12+0.0001*T", "-0.2"][i]
        if cp:
            q["S"] = S.SOL[i + 1]
    sp["mats"] = m
    sp["traps"] = [S.trap(1, [0]), S.trap(2, list(range(nmat)))][:nt]
    sp["settings"] = {"soret": bool(soret), "transient": bool(tr)}
    if nmat == 2:
        sp["settings"]["traps_element_type"] = "DG"
    if cp:
        sp["settings"]["chemical_pot"] = True
    tt = "+25*t" if tr else ""
    sp["bcs"] = [
        {"type": "dirichlet", "value": ("2.0+0.5*t" if tr else "1.0") + ("+0.3*y" if dim > 1 else "") + ("+0.2*z" if dim > 2 else ""), "surf": [2]},
        {"type": "mass", "h": 0.6, "c_ext": 0.3, "surf": [1]},
    ]
    if heat:
        sp["T"] = {"transient": True, "init": "310+40*x"} if tr else {"transient": False}
        sp["bcs"] += [{"type": "dirichlet", "field": "T", "value": 350.0, "surf": [2]}]
        if dim > 1 or min(sp["verts"]) > 0 or coord == "cartesian":
            sp["bcs"] += [{"type": "flux", "field": "T", "value": -20.0, "surf": [1]}]
        sp["srcs"] = [{"type": "source", "field": "T", "value": 90.0, "vol": [1]}]
    else:
        sp["T"] = "300+40*x" + ("+15*y" if dim > 1 else "") + ("+12*z" if dim > 2 else "") + tt
    if tr:
        sp["ics"] = [{"field": 0, "value": "1.0+x"}]
        sp["final"], sp["dt"] = 0.4, {"initial_value": 0.2}
    return sp


def cases(tier):
    out = []
    big = tier == "thorough"
    for i, (coord, nm, nt, soret, heat) in enumerate(itertools.product(
        ("cartesian", "cylindrical", "spherical"), (1, 2, 3), (0, 1, 2), (0, 1), (0, 1)
    )):
        for tr in (0, 1):
            if not big and nt and (tr != (i % 2) or nt == 2 and soret != heat):
                continue
            for mesh in (0, 1) if big else (0,):
                out.append({"id": f"{coord}-m{nm}-t{nt}-s{soret}-h{heat}-{tr}-{mesh}", "cost": 2 + 2 * nt + nm,
                            "group": f"{coord}{nm}{nt}", "spec": spec(coord, nm, nt, soret, heat, tr, mesh=mesh)})
    for coord, nm, nt, soret in itertools.product(("cartesian", "cylindrical"), (1, 2, 3), (0, 1), (0, 1)):
        if not big and soret != nt and nm != 2:
            continue
        out.append({"id": f"2d-{coord}-m{nm}-t{nt}-s{soret}", "cost": 6, "group": f"2d{coord}{nm}{nt}",
                    "spec": spec(coord, nm, nt, soret, soret, 1, dim=2)})
    for nm, nt, soret in ((1, 0, 0), (2, 1, 1), (3, 0, 0), (1, 1, 1)) if not big else itertools.product((1, 2, 3), (0, 1), (0, 1)):
        out.append({"id": f"3d-m{nm}-t{nt}-s{soret}", "cost": 15, "group": f"3d{nm}{nt}", "spec": spec("cartesian", nm, nt, soret, soret, 1, dim=3)})
    for L, coord, nm, (nt, heat, tr) in itertools.product((1e-9, 1e-6, 1e-3, 1e3), ("cartesian", "cylindrical", "spherical"), (1, 2, 3), ((1, 0, 1), (0, 1, 0))):
        if big or coord == "cartesian" or nm == 2:
            out.append({"id": f"scale{L:g}-{coord}-m{nm}-t{nt}-h{heat}-{tr}", "cost": 4 + nm, "group": f"{coord}{nm}{nt}", "spec": S.rescaled(spec(coord, nm, nt, 0, heat, tr), L)})
    # lengths below 1e-10, and fields that are negative everywhere or change sign
    for coord, nm in (("cartesian", 1), ("cartesian", 2), ("cylindrical", 1)):
        out.append({"id": f"scale1e-11-{coord}-m{nm}", "cost": 4 + nm, "group": f"{coord}{nm}0", "spec": S.rescaled(spec(coord, nm, 0, 0, 0, 0), 1e-11)})
    for coord, nm, dim, sign in itertools.product(("cartesian", "cylindrical", "spherical"), (1, 2), (1, 2), (-1, 0)):
        if dim == 2 and coord == "spherical":
            continue
        sp = spec(coord, nm, 0, 0, 0, 1, dim=dim)
        sp["ics"] = [{"field": 0, "value": "-1.0-x" if sign else "1.7-2*x"}]
        sp["bcs"] = [{"type": "dirichlet", "value": "-2.0-0.5*t" + ("-0.3*y" if dim > 1 else ""), "surf": [2]},
                     {"type": "mass", "h": 0.6, "c_ext": -0.3 if sign else 1.9, "surf": [1]}]
        out.append({"id": f"negative-{coord}-m{nm}-{dim}d-{sign}", "cost": 4 + nm, "group": f"{dim}d{coord}{nm}0", "spec": sp})
    for tr, srf in itertools.product((0, 1), ([1], [2], [1, 2], [2, 1])):
        sp = S.base(mats=[S.therm(1)], T="300+30*t" if tr else 310.0, bcs=[dict(S.KIN, surf=srf, prm="1.0+t" if tr else 1.0)],
                    traps=[S.trap(1, [0])])
        if tr:
            sp.update(ics=[{"field": 0, "value": "1.0+x"}], final=0.4, dt={"initial_value": 0.2})
        else:
            sp.pop("dt"), sp.pop("final")
            sp["settings"] = {"transient": False}
        out.append({"id": f"adsorbed-{tr}-{srf}", "spec": sp, "cost": 4, "group": "ads"})
    out.append({"id": "filter", "cost": 2, "group": "filter"})
    return out


def run_filter():
    """DerivedQuantities.filter: all combinations of criteria"""
    import festim as F

    qs = [F.TotalSurface("solute", 1), F.TotalSurface("T", 2), F.SurfaceFlux("solute", 1), F.HydrogenFlux(2), F.ThermalFlux(1), F.SurfaceFlux("T", 10),
          F.TotalVolume("solute", 1), F.TotalVolume("1", 2), F.AverageVolume("T", 1), F.MaximumVolume("retention", 12), F.MinimumVolume("1", 1),
          F.PointValue("solute", 0.3), F.AdsorbedHydrogen(1), F.AverageSurface("retention", 2), F.TotalVolume("10", 10)]
    places = [None, 1, 2, 10, [1], [2, 1], [10, 3], 7, []]
    fields = [None, "solute", "T", "1", ["solute"], ["T", "solute"], ["10", "retention"], "x", []]
    kinds = [None, F.TotalVolume, F.TotalSurface, F.SurfaceFlux, [F.TotalVolume], [F.TotalVolume, F.PointValue], [F.HydrogenFlux], F.SurfaceQuantity,
             [F.VolumeQuantity, F.ThermalFlux], F.AdsorbedHydrogen]
    bad, n = [], 0
    # (declared in both orders; a single quantity; none)
    for lst in (qs, qs[::-1], qs[:1], []):
        dq = F.DerivedQuantities(lst)
        for s, v, fl, k in itertools.product(places, places, fields, kinds):
            n += 1
            asl = lambda a: a if isinstance(a, list) else [a]
            want = [q for q in lst
                    if (s is None or getattr(q, "surface", None) in asl(s))
                    and (v is None or getattr(q, "volume", None) in asl(v))
                    and (fl is None or q.field in asl(fl))
                    and (k is None or any(issubclass(type(q), c) for c in asl(k)))]
            a = dict(surfaces=s, volumes=v, fields=fl, instances=k)
            try:
                got = dq.filter(**a)
            except Exception as e:
                bad.append(f"filter({a}): {type(e).__name__}: {e}")
                continue
            ok = got is want[0] if len(want) == 1 else isinstance(got, list) and len(got) == len(want) and all(x is y for x, y in zip(got, want))
            if not ok:
                bad.append(f"filter({a}): {got}, expected {want}")
    return {"violations": bad[:5], "states": n, "transitions": n, "traces": 1, "worst": 0.0, "outcome": "filter"}


def run(case):
    if case["id"] == "filter":
        return run_filter()
    import festim as F
    import numpy as np
    from mc import build as B
    from mc.refmodel import K_B, val

    sp = case["spec"]
    coord = sp["coord"] if "coord" in sp else "cartesian"
    dim = len(sp.get("rect", [1]))
    L = sp.get("L", 1.0)
    nt = len(sp.get("traps", []))
    vols = [i for m in sp["mats"] for i in ([m["id"]] if not isinstance(m["id"], list) else m["id"])]
    surfs = list(range(1, 2 * dim + 1))
    fields = [("solute", 0, "0")] + [(str(i + 1), i + 1) for i in range(nt)] + [("T",), ("retention",)]
    suf = {"cartesian": "", "cylindrical": "Cylindrical", "spherical": "Spherical"}[coord]
    get = lambda n: getattr(F, n)
    qs = []  # (quantity, what, field, place, factor)

    def rng(kind):
        """(kwargs, factor) of the angle ranges"""
        if coord == "cartesian":
            return [({}, 1.0)]
        if coord == "cylindrical":
            return [({}, 2 * math.pi)] + [({"azimuth_range": r}, r[1] - r[0]) for r in RANGES[1:]]
        if kind == "flux":
            o = [({}, 4 * math.pi)]
            for a, p in (((0.3, 1.9), (-1.0, 0.5)), ((0.0, 1.0), (-3.0, 3.0))):
                o.append(({"azimuth_range": a, "polar_range": p}, (p[1] - p[0]) * (math.cos(a[0]) - math.cos(a[1]))))
            return o
        o = [({}, 4 * math.pi)]
        for a, p in (((0.3, 1.9), (0.4, 1.5)), ((0.0, 6.0), (1.0, 3.0))):
            o.append(({"azimuth_range": a, "polar_range": p}, (a[1] - a[0]) * (math.cos(p[0]) - math.cos(p[1]))))
        return o

    for names in fields:
        for k, nme in enumerate(names):
            fld = names[0]
            for v in vols:
                if k == 0:
                    qs.append((get("AverageVolume" + suf)(nme, v), "avgv", fld, v, 1.0))
                    qs.append((F.MaximumVolume(nme, v), "maxv", fld, v, 1.0))
                    qs.append((F.MinimumVolume(nme, v), "minv", fld, v, 1.0))
                for kw, fac in (rng("tot") if k == 0 else rng("tot")[:1]):
                    qs.append((get("TotalVolume" + suf)(nme, v, **kw), "totv", fld, v, fac))
            for s in surfs:
                if k == 0 and not (coord != "cartesian" and dim == 1 and s == 1 and min(sp["verts"]) == 0):
                    # (the average over the axis, an empty surface, is not defined)
                    qs.append((get("AverageSurface" + suf)(nme, s), "avgs", fld, s, 1.0))
                if k == 0:
                    qs.append((F.MaximumSurface(nme, s), "maxs", fld, s, 1.0))
                    qs.append((F.MinimumSurface(nme, s), "mins", fld, s, 1.0))
                for kw, fac in (rng("tot") if k == 0 else rng("tot")[:1]):
                    qs.append((get("TotalSurface" + suf)(nme, s, **kw), "tots", fld, s, fac))
                if fld in ("solute", "T") and (fld == "solute" or isinstance(sp["T"], dict) or True):
                    for kw, fac in (rng("flux") if k == 0 else rng("flux")[:1]):
                        qs.append((get("SurfaceFlux" + suf)(nme, s, **kw), "flux", fld, s, fac))
            lo = sp.get("x0", 0.0) if dim > 1 else min(sp["verts"])
            hi = lo + 1.0 if dim > 1 else max(sp["verts"])
            for a in (0.0, 0.37, 0.83, 1.0):
                p = lo + a * (hi - lo)
                x = [p, 0.21, 0.55][:dim]
                if dim == 1:
                    qs.append((F.PointValue(nme, x if k else p), "pt", fld, tuple(x), 1.0))
                else:
                    qs.append((F.PointValue(nme, tuple(x)), "pt", fld, tuple(x), 1.0))
    if coord == "cartesian":
        for s in surfs:
            qs.append((F.HydrogenFlux(s), "flux", "solute", s, 1.0))
            qs.append((F.ThermalFlux(s), "flux", "T", s, 1.0))
    dq = F.DerivedQuantities([q[0] for q in qs])
    dq2 = F.DerivedQuantities([F.AdsorbedHydrogen(s) for b in sp.get("bcs", []) if b["type"] == "kinetics" for s in sorted(b["surf"])])
    r = B.Run(sp, extra_exports=[dq] + ([dq2] if len(dq2) else []))
    r.initialise()
    r.run()
    g = r.grid
    kw = {"cartesian": 0, "cylindrical": 1, "spherical": 2}[coord]
    bad = []
    worst = 0.0
    cells_of = [[i for i, c in enumerate(g.cells) if v in c] for v in range(len(g.x))]

    def field(row, name):
        if name == "solute":
            return row["c"]
        if name == "T":
            return row["T"]
        if name == "retention":
            return row["c"] + sum(row["traps"], 0.0)
        return row["traps"][int(name) - 1]

    def expect(row, what, fld, place, fac):
        f = field(row, fld)
        if what in ("avgv", "totv"):
            i = g.integrate(f, place, kw)
            if what == "totv":
                return fac * i, fac * g.integrate(np.abs(f), place, kw)
            vol = g.integrate(np.ones_like(f), place, kw)
            return i / vol, g.integrate(np.abs(f), place, kw) / vol
        if what in ("maxv", "minv"):
            v = f[g.mask(place)]
            a = v.max() if what == "maxv" else v.min()
            return a, np.abs(v).max()
        if what == "pt":
            p = np.array(place)
            c0 = None
            vals = []
            for c in range(len(g.cells)):
                X = g.x[g.cells[c]]
                lam = np.array([1.0 + 0 * p[0]] * len(X))
                lam[1:] = g.G[c][1:] @ (p - X[0])
                lam[0] = 1 - lam[1:].sum()
                if lam.min() > -1e-9:
                    vals.append(float(lam @ f[c]))
            # at the interface of two cells of a discontinuous field either value is right
            return vals, max(map(abs, vals))
        tot = area = mx = sc = 0.0
        mn, mx = np.inf, -np.inf
        for mk, vs, cell in g.facets:
            if mk != place:
                continue
            xq, wq, lam = g.facet_quad(vs)
            loc = [int(np.where(g.cells[cell] == v)[0][0]) for v in vs]
            fq = lam @ f[cell][loc]
            w = wq * xq[:, 0] ** kw
            if what == "flux":
                # outward normal: opposite to the gradient of the opposite vertex's hat function
                opp = [i for i in range(len(g.cells[cell])) if i not in loc][0]
                nrm = -g.G[cell][opp] / np.linalg.norm(g.G[cell][opp])
                gf = float(g.grad(f)[cell] @ nrm)
                Tq = lam @ row["T"][cell][loc]
                mt = r.ref.cell_of(cell)
                if fld == "T":
                    pr = val(mt["k_th"], None, T=Tq) + 0 * Tq
                    q = pr * gf
                else:
                    D = mt["D"][0] * np.exp(-mt["D"][1] / K_B / Tq)
                    q = D * gf
                    sc += float((np.abs(q) * w).sum())
                    if r.ref.soret:
                        so = D * val(mt["Q"], None, T=Tq) * fq / (K_B * Tq**2) * float(g.grad(row["T"])[cell] @ nrm)
                        sc += float((np.abs(so) * w).sum())
                        q = q + so
                sc += float((np.abs(q) * w).sum()) + 1e-9 * L * float(w.sum()) * np.abs(f).max()
                tot += float((q * w).sum())
            else:
                tot += float((fq * w).sum())
                sc += float((np.abs(fq) * w).sum())
            area += float(w.sum())
            mn, mx = min(mn, f[cell][loc].min()), max(mx, f[cell][loc].max())
        if what == "avgs":
            return tot / area, sc / area
        if what == "maxs":
            return mx, max(abs(mn), abs(mx))
        if what == "mins":
            return mn, max(abs(mn), abs(mx))
        return fac * tot, fac * sc

    n = 0
    # the table of the quantities: one column each, in order, with its title and unit
    name = {"avgv": "Average {} volume {}", "maxv": "Maximum {} volume {}", "minv": "Minimum {} volume {}", "totv": "Total {} volume {}",
            "avgs": "Average {} surface {}", "maxs": "Maximum {} surface {}", "mins": "Minimum {} surface {}", "tots": "Total {} surface {}",
            "flux": "{} flux surface {}", "pt": "{} value at {}"}

    def title(q, what, fld, place):
        if what == "flux" and fld == "T":
            return f"Heat flux surface {place}"
        return name[what].format(q.field, q.x if what == "pt" else place)

    def units(what, fld):
        """the units that are right"""
        base = "K" if fld == "T" else "H"
        m = 0 if fld == "T" else -3
        full = coord == "spherical" and 3 or dim + kw  # dimension of the domain of integration
        if what == "totv":
            m = [m + full]
        elif what == "tots":
            # (the surface integral of a concentration is documented as H m^(dim-3))
            m = [m + full - 1] if fld == "T" else [m + full]
        elif what == "flux":
            base, m = ("W" if fld == "T" else "H"), [full - 3]
        else:
            m = [m]
        u = base + "".join("" if e == 0 else " m" if e == 1 else f" m{e}" for e in m)
        return u + (" s-1" if what == "flux" and fld != "T" else "")

    allq = list(dq)
    if not (len(dq.data) == len(r.rows) + 1 and dq.data[0][0] == "t(s)" and all(len(x) == len(allq) + 1 for x in dq.data)):
        bad.append(f"table of {len(allq)} quantities in {len(r.rows)} steps: {[len(x) for x in dq.data]}, first cell {dq.data[0][:1]}")
    else:
        for j, (q, what, fld, place, fac) in enumerate(qs):
            n += 1
            w = title(q, what, fld, place) + f" ({units(what, fld)})"
            if dq.data[0][j + 1] != w:
                bad.append(f"{type(q).__name__} {fld}, {place}: column {dq.data[0][j + 1]!r}, expected {w!r}")
            if [x[j + 1] for x in dq.data[1:]] != list(q.data) or [x[0] for x in dq.data[1:]] != list(q.t) or list(q.t) != list(dq.t):
                bad.append(f"{type(q).__name__} {fld}, {place}: its column in the table is not its data")
        dq.show_units = False
        for j, (h, (q, what, fld, place, fac)) in enumerate(zip(dq.make_header()[1:], qs)):
            n += 1
            if h != title(q, what, fld, place):
                bad.append(f"{type(q).__name__} {fld}, {place}, no units: column {h!r}, expected {title(q, what, fld, place)!r}")
    for q, h in zip(dq2, dq2.make_header()[1:]):
        if h != f"Adsorbed H on surface {q.surface} (H m-2)":
            bad.append(f"adsorbed hydrogen: column {h!r}")
    for k, row in enumerate(r.rows):
        for q, what, fld, place, fac in qs:
            if len(q.data) != len(r.rows):
                bad.append(f"{type(q).__name__} {fld}: {len(q.data)} values in {len(r.rows)} steps")
                continue
            w, sc = expect(row, what, fld, place, fac)
            tol = 1e-7
            if what == "flux":
                tol = 1e-6
            elif fld == "retention":
                tol = 1e-6
            e = min(abs(q.data[k] - a) for a in w) if what == "pt" else abs(q.data[k] - w)
            e = e / max(sc, 1e-300 if L != 1 else 1e-12)
            n += 1
            worst = max(worst, e if e <= tol else 0.0)
            if not e <= tol:
                bad.append(f"{type(q).__name__}({fld!r} as {q.field!r}) at {place} (x{fac:.4g}), step {k + 1}: {q.data[k]}, expected {w} "
                           f"({e:.1e})")
        for q in dq2:
            u = r.sim.h_transport_problem.u.split(True)
            comps = {}
            i = 1 + nt
            for b in sp["bcs"]:
                if b["type"] == "kinetics":
                    for s in b["surf"]:
                        comps[s] = u[i]
                        i += 1
            if k == len(r.rows) - 1:
                x = g.x[[vs for mk, vs, c in g.facets if mk == q.surface][0][0]][0]
                w = comps[q.surface](x)
                n += 1
                if abs(q.data[k] - w) > 1e-8 * abs(w):
                    bad.append(f"adsorbed hydrogen on {q.surface}: {q.data[k]}, expected {w}")
        if abs(dq.t[k] - row["t"]) > 1e-12:
            bad.append(f"time of the quantities {dq.t[k]}, step at {row['t']}")
    return {"violations": bad[:5], "worst": worst, "states": len(r.rows), "transitions": n, "traces": 1,
            "outcome": f"{len(r.rows)}:{len(qs)}"}
