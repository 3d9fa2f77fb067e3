"""Every part of the geometry gets the properties, sources and traps of the
material declared there, and the surfaces are the declared ones."""

import itertools

from mc import specs as S

BOUNDS = {
    "quick": "all layouts of an interval in 1 to 4 segments (3 possible interfaces) shared by at most 3 materials, "
    "materials listed in both orders, the segments of a material and their ids in every order, one id per segment or one per material, meshes that follow or straddle the "
    "interfaces, vertices unsorted and duplicated, length scales 1e-9 to 1e3, meshes that begin below and above 0; 2D and 3D meshes with markers, in memory and read from files; twelve materials; ids of several digits in any order",
    "thorough": "as quick, all combinations of the styles",
}
ASSUMPTIONS = ["a cell belongs to the segment that holds its midpoint"]


def rgs(n, k):
    """restricted growth strings: all partitions of n segments in at most k materials"""
    def rec(pre, m):
        if len(pre) == n:
            yield tuple(pre)
            return
        for v in range(min(m + 1, k - 1) + 1):
            yield from rec(pre + [v], max(m, v))
    yield from rec([0], 0)


def cases(tier):
    out = []
    n = 0
    for r in range(4):
        for br in itertools.combinations((0.25, 0.5, 0.8), r):
            pts = [0.0] + list(br) + [1.0]
            segs = list(zip(pts[:-1], pts[1:]))
            for part in rgs(len(segs), 3):
                styles = list(itertools.product(("list", "single"), (0, 1), ("align", "straddle", "shuffle")))
                if tier != "thorough":
                    styles = [styles[(n * 5 + j * 3) % len(styles)] for j in range(2)]
                n += 1
                for style, rev, mesh in styles:
                    out.append({"id": f"{br}-{part}-{style}-{rev}-{mesh}", "segs": segs, "part": part,
                                "style": style, "rev": rev, "mesh": mesh, "cost": 2, "scale": 1.0})
    out.append({"id": "small", "segs": [(0.0, 0.5), (0.5, 1.0)], "part": (0, 1), "style": "list", "rev": 0,
                "mesh": "align", "scale": 1e-6})
    # other length scales, and meshes that don't begin at 0
    for sc, part, mesh in itertools.product((1e-9, 1e3), ((0, 1), (0, 1, 0)), ("align", "shuffle")):
        pts = [0.0, 0.25, 1.0] if len(part) == 2 else [0.0, 0.25, 0.8, 1.0]
        out.append({"id": f"scale-{sc:g}-{part}-{mesh}", "segs": list(zip(pts[:-1], pts[1:])), "part": part, "style": "list", "rev": 0,
                    "mesh": mesh, "scale": sc})
    for sc, off, mesh in itertools.product((1.0, 1e-9), (-0.5, -1.0, -2.0, 0.25, 3.0), ("align", "shuffle")):
        out.append({"id": f"offset-{sc:g}-{off}-{mesh}", "segs": [(0.0, 1.0)], "part": (0,), "style": "list", "rev": 0,
                    "mesh": mesh, "scale": sc, "off": off})
    # the segments of a material and their ids in every order
    for br, part in (((0.25, 0.5), (0, 1, 0)), ((0.25, 0.5), (0, 0, 1)), ((0.25, 0.5, 0.8), (0, 1, 0, 1)), ((0.25, 0.5, 0.8), (0, 1, 0, 0))):
        pts = [0.0] + list(br) + [1.0]
        n0 = part.count(0)
        for o, ids in itertools.product(itertools.permutations(range(n0)), itertools.permutations((9, 7, 12)[:n0])):
            if tier == "thorough" or n0 == 2 or o[0] == 2 or ids[0] == 12:
                out.append({"id": f"order-{part}-{o}-{ids}", "segs": list(zip(pts[:-1], pts[1:])), "part": part, "style": "list", "rev": 0,
                            "mesh": "align", "scale": 1.0, "order": o, "oids": list(ids)})
    # twelve materials
    for rev, style in itertools.product((0, 1), ("list", "gaps")):
        pts = [k / 12 for k in range(13)]
        out.append({"id": f"twelve-{rev}-{style}", "segs": list(zip(pts[:-1], pts[1:])), "part": tuple(range(12)), "style": style, "rev": rev,
                    "mesh": "fine", "scale": 1.0, "cost": 10})
    for ids in ((1, 2), (7, 3), (10, 1), (300, 12)):
        for how in ("memory", "file"):
            for split in ("list", "two"):
                out.append({"id": f"2d-{ids}-{how}-{split}", "ids": ids, "how": how, "split": split, "cost": 3})
                if ids == (7, 3) or tier == "thorough":
                    out.append({"id": f"3d-{ids}-{how}-{split}", "ids": ids, "how": how, "split": split, "cost": 8, "dim": 3})
    return out


def spec_of(case):
    sc = case["scale"]
    segs, part = case["segs"], case["part"]
    nm = max(part) + 1
    mats = []
    nid = 1
    for i in range(nm):
        m = S.mat(i % 3 + 1)
        if i > 2:
            m["D"] = [m["D"][0] * (1 + 0.1 * i), m["D"][1]]
        if case["style"] == "gaps":
            nid = (i * 7) % 13 + 10 * (i % 2) + 1
        m["D"] = [m["D"][0] * sc**2, m["D"][1]]
        mine = [[a * sc, b * sc] for (a, b), p in zip(segs, part) if p == i]
        if len(mine) == 1:
            m["borders"] = mine[0]
            m["id"] = nid
            nid += 1
        elif case["style"] == "list":
            m["borders"] = mine
            m["id"] = list(range(nid, nid + len(mine)))
            nid += len(mine)
        else:
            m["borders"] = mine
            m["id"] = nid
            nid += 1
        if "order" in case and i == 0:
            m["borders"] = [mine[k] for k in case["order"]]
            m["id"] = case["oids"]
        mats.append(m)
    if case["rev"]:
        mats = mats[::-1]
    off = case.get("off", 0.0)
    if "off" in case:
        # one material, without borders
        del mats[0]["borders"]
    v = list(S.V)
    if case["mesh"] == "straddle":
        v = [0.0, 0.13, 0.21, 0.33, 0.47, 0.58, 0.71, 0.77, 0.9, 1.0]
    elif case["mesh"] == "shuffle":
        v = [0.5, 1.0, 0.0, 0.25, 0.8, 0.25, 0.4, 0.1, 0.6, 0.0]
    elif case["mesh"] == "fine":
        v = [k / 36 for k in range(37)]
    ids = []
    for m in mats:
        ids += m["id"] if isinstance(m["id"], list) else [m["id"]]
    sp = {
        "verts": [(x + off) * sc for x in v], "mats": mats, "T": "300.0+40.0*x" if sc == 1.0 else 310.0,
        "settings": {"transient": False, "traps_element_type": "DG"},
        "traps": [S.trap(2, [len(mats) - 1])],
        "bcs": [{"type": "dirichlet", "value": 1.0, "surf": [1]}, {"type": "flux", "value": 0.3 * sc, "surf": [2]}],
        "srcs": [{"type": "source", "value": 2.0, "field": 0, "vol": [ids[-1]]}],
    }
    return sp, ids


def run(case):
    import festim as F
    import numpy as np
    from mc import build as B

    if "ids" in case:
        return run2d(case)
    sp, ids = spec_of(case)
    q = [F.TotalVolume("T", i) for i in ids] + [F.TotalSurface("T", 1), F.TotalSurface("T", 2)]
    dq = F.DerivedQuantities(q)
    r = B.Run(sp, extra_exports=[dq])
    r.initialise()
    r.run()
    bad, worst, n = B.check_trajectory(r, tol=5e-6)
    g = r.grid
    Tv = np.array(B.val(sp["T"], g.x[g.cells], 0.0)) * np.ones(g.cells.shape)
    h = np.abs(g.x[g.cells[:, 1], 0] - g.x[g.cells[:, 0], 0])
    for i, k in zip(ids, q):
        exp = float(np.sum((h * Tv.mean(axis=1))[g.marker == i]))
        if abs(k.data[0] - exp) > 1e-9 * abs(exp) + 1e-300:
            bad.append(f"integral over volume {i}: {k.data[0]} instead of {exp}")
    for k, x in zip(q[-2:], (min(sp["verts"]), max(sp["verts"]))):
        exp = float(np.ravel(B.val(sp["T"], np.array([[x]]), 0.0))[0])
        if abs(k.data[0] - exp) > 1e-9 * exp:
            bad.append(f"surface {k.surface}: {k.data[0]} instead of {exp}")
    return {"violations": bad[:4], "worst": worst, "states": n, "transitions": len(ids), "traces": 1,
            "outcome": f"{float(np.sum(r.rows[0]['c'])):.6g}"}


def run2d(case):
    import fenics as f
    import festim as F
    import numpy as np
    from mc import build as B
    from mc.refmodel import RefModel

    i1, i2 = case["ids"]
    mats = [S.mat(1), S.mat(2)] if case["split"] == "two" else [S.mat(1)]
    sp = {
        "rect": [4, 2], "split": True, "mats": mats, "T": "300+40*x+10*y",
        "settings": {"transient": False}, "traps": [],
        "bcs": [{"type": "dirichlet", "value": "1.0+y", "surf": [12]},
                {"type": "flux", "value": 0.3, "surf": [13]}, {"type": "flux", "value": -0.2, "surf": [14]}],
        "srcs": [{"type": "source", "value": 2.0, "field": 0, "vol": [i2]}],
    }
    if case["split"] == "two":
        mats[0]["id"], mats[1]["id"] = i1, i2
    else:
        mats[0]["id"] = [i1, i2]
    dim = case.get("dim", 2)
    if dim == 3:
        sp["rect"] = [2, 1, 1]
        sp["bcs"] += [{"type": "flux", "value": 0.15, "surf": [15]}, {"type": "flux", "value": -0.1, "surf": [16]}]
    mesh, vm, sm = B.mesh2d(sp)
    for c in f.cells(mesh):
        vm[c] = i2 if vm[c] == 2 else i1
    for fc in f.facets(mesh):
        if sm[fc]:
            sm[fc] = sm[fc] + 10
    r = B.Run(sp)
    if case["how"] == "file":
        f.XDMFFile("vol.xdmf").write(vm)
        sm.rename("f", "f")
        f.XDMFFile("surf.xdmf").write(sm)
        me = F.MeshFromXDMF("vol.xdmf", "surf.xdmf")
        # the geometry is that of the file, the markers are the declared ones
        mid = me.mesh.coordinates()[me.mesh.cells()].mean(axis=1)
        vm = f.MeshFunction("size_t", me.mesh, dim, 0)
        vm.array()[:] = np.where(mid[:, 0] > 0.5, i2, i1)
        sm = f.MeshFunction("size_t", me.mesh, dim - 1, 0)
        for fc in f.facets(me.mesh):
            if fc.exterior():
                p = fc.midpoint()
                sm[fc] = 11 if f.near(p.x(), 0) else 12 if f.near(p.x(), 1) else 13 if f.near(p.y(), 0) else 14
                if dim == 3 and 1e-9 < p.x() < 1 - 1e-9 and 1e-9 < p.y() < 1 - 1e-9:
                    sm[fc] = 15 if p.z() < 0.4 else 16
        mesh = me.mesh
        r.sim.mesh = me
    else:
        r.sim.mesh = F.Mesh(mesh, vm, sm)
    r.grid = B.grid_of(sp, mesh, vm, sm)
    r.ref = RefModel(sp, r.grid)
    q = [F.TotalVolume("T", i) for i in (i1, i2)] + [F.TotalSurface("T", i) for i in range(11, 17 if dim == 3 else 15)]
    r.sim.exports = [r.dq, F.DerivedQuantities(q)]
    r.initialise()
    r.run()
    bad, worst, n = B.check_trajectory(r, tol=5e-6)
    exp = [0.5 * (300 + 10 + 5), 0.5 * (300 + 30 + 5), 305, 345, 320, 330]
    if dim == 3:
        exp = [0.8 * e for e in exp] + [325, 325]
    for k, e in zip(q, exp):
        if abs(k.data[0] - e) > 1e-9 * e:
            bad.append(f"{k.title}: {k.data[0]} instead of {e}")
    return {"violations": bad[:4], "worst": worst, "states": n, "transitions": 6, "traces": 1,
            "outcome": f"{float(np.sum(r.rows[0]['c'])):.6g}"}
