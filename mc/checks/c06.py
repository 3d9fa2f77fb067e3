"""A model initialised and run again behaves as a new model with the same
parameters, whatever was done with it before."""

import itertools

from mc import specs as S

BOUNDS = {
    "quick": "16 models (every part of the physics) x all histories (run | failed run | interrupted | initialised) of length 2, all histories "
    "run-change-run over 32 changes of parameters and objects, in place or by new objects (all exports compared, with the values in the files), run-change-run-change-run over all pairs of 8 changes, and changes made and undone",
    "thorough": "as quick with all pairs of changes for every model",
}
ASSUMPTIONS = ["the new model is built from the same parameters in the same process"]


def bases():
    left = {"type": "dirichlet", "value": "1.0+t", "surf": [1]}
    ic = [{"field": 0, "value": "1.0+x"}]
    b = {}
    dt = {"initial_value": 0.2, "stepsize_change_ratio": 1.5, "dt_min": 1e-4, "milestones": [0.3]}
    k = dict(final=0.5, dt=dt, ics=ic)
    b["plain"] = S.base(
        T="300+20*x+30*t", bcs=[left, {"type": "recomb", "Kr": 0.6, "E": 0.01, "order": 1, "surf": [2]}],
        traps=[S.trap(1, [0]), S.trap(2, [0], dens="0.6+t")],
        srcs=[{"type": "source", "value": "0.5*(1+t)", "field": 0, "vol": [1]}], **k)
    b["heat"] = S.base(
        T={"transient": True, "init": "300+20*x"}, mats=[S.therm(1)],
        bcs=[left, {"type": "convective", "h": 0.8, "T_ext": "320+10*t", "surf": [2]},
             {"type": "dirichlet", "field": "T", "value": "300+50*t", "surf": [1]}],
        srcs=[{"type": "source", "value": "100*(1+t)", "field": "T", "vol": [1]}], **k)
    b["extrinsic"] = S.base(
        T="300+30*t", bcs=[left],
        traps=[dict(S.trap(1, [0]), kind="extrinsic", prm=S.EXTRINSIC),
               dict(S.trap(2, [0]), kind="neutron", prm=S.NEUTRON)], **k)
    b["kinetics"] = S.base(T="300+30*t", bcs=[S.KIN], traps=[S.trap(1, [0])], **k)
    b["chempot"] = S.base(
        T="300+20*x+30*t", mats=[S.mat(1, S=S.SOL[1], borders=[0, 0.5]), S.mat(2, S=S.SOL[2], borders=[0.5, 1.0])],
        traps=[S.trap(1, [0, 1], by_name=True)], settings={"chemical_pot": True, "traps_element_type": "DG"}, bcs=[left], **k)
    b["steady"] = S.base(
        T="300+20*x", mats=[S.mat(1, borders=[0, 0.5]), S.mat(2, borders=[0.5, 1.0])],
        bcs=[dict(left, value=1.0), {"type": "recomb", "Kr": 0.6, "E": 0.01, "order": 1, "surf": [2]}],
        srcs=[{"type": "source", "value": "0.5*(1+x)", "field": 0, "vol": [1]}],
        settings={"transient": False, "traps_element_type": "DG"}, traps=[S.trap(1, [0, 1]), S.trap(2, [1], by_name=True)])
    two = [S.mat(1, borders=[0, 0.5]), S.mat(2, borders=[0.5, 1.0])]
    b["sources"] = S.base(
        T="300+20*x+30*t", mats=two, bcs=[left], traps=[S.trap(1, [0, 1]), S.trap(2, [1], by_name=True)], settings={"traps_element_type": "DG"},
        srcs=[{"type": "decay", "lam": 0.4, "field": "all", "vol": [1, 2]},
              {"type": "source", "value": "0.5*(1+t)", "field": "1", "vol": [2]},
              {"type": "source", "value": "0.2*(1+x)", "field": 2, "vol": [2]},
              {"type": "source", "value": "0.5*(1+t)", "field": 0, "vol": [1], "as": "expression"},
              {"type": "decay", "lam": 0.3, "field": "2", "vol": [2]},
              {"type": "implant", "flux": "1.0+t", "depth": 0.3, "width": 0.2, "vol": [1], "field": 0}],
        **dict(k, ics=ic + [{"field": "2", "value": 0.2}]))
    b["fluxes"] = S.base(
        T="300+30*t", bcs=[{"type": "recomb", "Kr": "0.7+t", "E": 0.01, "order": 2, "surf": [1]},
                           {"type": "dissoc", "Kd": 0.9, "E": 0.02, "P": "2.0+t", "surf": [2]},
                           {"type": "customflux", "fun": "-p*c", "prm": "0.5+t", "surf": [1, 2]},
                           {"type": "mass", "h": 0.6, "c_ext": "0.3+t", "surf": [2]}, {"type": "flux", "value": "0.2+t", "surf": [1]}], **k)
    b["dcs"] = S.base(
        T="300+30*t", traps=[S.trap(1, [0]), S.trap(2, [0])],
        bcs=[{"type": "sieverts", "S": [1.2, 0.03], "P": "2.0+t", "surf": [1]},
             {"type": "customdc", "fun": "p+0.001*T", "prm": "1.0+t", "surf": [2]},
             {"type": "dirichlet", "value": "0.3+t", "field": "1", "surf": [1]}], **k)
    b["dcs2"] = S.base(
        T="300+30*t",
        bcs=[{"type": "implantdc", "phi": "1.5+t", "Rp": 0.3, "D": [1.1, 0.02], "Kr": [0.8, 0.01], "Kd": [0.5, 0.02], "P": "1.0+t",
              "surf": [1]}, {"type": "henrys", "H": [1.2, 0.03], "P": "2.0+t", "surf": [2]}], **k)
    b["cyl"] = S.base(
        verts=S.VR, coord="cylindrical", T="300+20*x+30*t", traps=[S.trap(1, [0])], mats=[S.mat(1, Q="0.12+0.0001*T", S=S.SOL[1])],
        settings={"soret": True}, bcs=[left, {"type": "mass", "h": 0.6, "c_ext": "0.3+t", "surf": [2]}],
        srcs=[{"type": "source", "value": "0.3*(1+t)", "field": 0, "vol": [1]}], **k)
    b["sph"] = S.base(
        verts=S.VR, coord="spherical", T={"transient": True, "init": "300+20*x"}, mats=[dict(S.therm(1), S=S.SOL[1])], traps=[S.trap(1, [0])],
        bcs=[left, {"type": "convective", "h": 0.8, "T_ext": "320+10*t", "surf": [2]}], settings={"chemical_pot": True}, **k)
    b["henry"] = S.base(
        T="300+20*x+30*t", mats=[S.mat(1, S=S.SOL[1], borders=[0, 0.5]), S.mat(2, S=S.SOL[2], law="henry", borders=[0.5, 1.0])],
        settings={"chemical_pot": True}, bcs=[left], **k)
    b["steadyheat"] = S.base(
        T={"transient": False}, mats=[S.therm(1)], traps=[S.trap(1, [0])],
        bcs=[left, {"type": "dirichlet", "field": "T", "value": 300.0, "surf": [1]}, {"type": "flux", "field": "T", "value": 20.0, "surf": [2]},
             {"type": "customflux", "field": "T", "fun": "-0.3*(T-p)", "prm": 340.0, "surf": [2]}],
        srcs=[{"type": "source", "value": "100.0*x", "field": "T", "vol": [1]}], **k)
    b["kinheat"] = S.base(
        T={"transient": True, "init": "300+20*x"}, mats=[S.therm(1)], bcs=[dict(S.KIN, surf=[1]), {"type": "flux", "value": 0.2, "surf": [2]}, {
            "type": "customdc", "field": "T", "fun": "p+0*T", "prm": "310+30*t", "surf": [1]}], **k)
    b["rect"] = dict(
        S.base(T="300+20*x+10*y+30*t", mats=two, traps=[S.trap(1, [1])], settings={"traps_element_type": "DG"},
               bcs=[dict(left, surf=[1, 3]), {"type": "recomb", "Kr": 0.6, "E": 0.01, "order": 1, "surf": [2]}],
               srcs=[{"type": "source", "value": "0.5*(1+y)", "field": "1", "vol": [2]}], **k), rect=[2, 2])
    b["rect"].pop("verts")
    b["rect"]["mats"] = [S.mat(1), S.mat(2)]
    return b


def unscaled(v):
    return f"1.25*({v})" if isinstance(v, str) else 1.25 * v


# changes of the parameters: name -> f(spec) -> new spec or None
def ch_T(s):
    if isinstance(s["T"], dict):
        return None
    return dict(s, T="310+15*x+20*t" if s.get("settings", {}).get("transient", True) else "310+15*x")


def ch_bc(s):
    b = [dict(x) for x in s["bcs"]]
    for x in b:
        if x["type"] == "dirichlet" and x.get("field", 0) == 0:
            x["value"] = 1.7
            return dict(s, bcs=b)
    return None


def ch_bcside(s):
    b = [dict(x) for x in s["bcs"]]
    if any(x["type"] == "kinetics" for x in b):
        return None
    b = [x for x in b if not (x["type"] == "dirichlet" and x.get("field", 0) == 0)]
    if any(x["type"] in ("sieverts", "henrys", "implantdc", "customdc") and x.get("field", 0) == 0 for x in b):
        return None
    b += [{"type": "flux", "value": 0.4, "surf": [1]}]
    return dict(s, bcs=b)


def ch_src(s):
    return dict(s, srcs=[x for x in s.get("srcs", []) if x["field"] == "T"]
                + [{"type": "source", "value": 0.8, "field": 0, "vol": [1]}])


def ch_ic(s):
    if not s.get("settings", {}).get("transient", True):
        return None
    return dict(s, ics=[{"field": 0, "value": 0.4}])


def ch_mesh(s):
    if "rect" in s:
        return dict(s, rect=[4, 1])
    a = min(s["verts"])
    return dict(s, verts=[a + v for v in (0.0, 0.2, 0.35, 0.5, 0.65, 0.9, 1.0)])


def ch_coord(s):
    """another system of coordinates"""
    if "rect" in s:
        return None
    return dict(s, coord="cylindrical" if s.get("coord", "cartesian") == "cartesian" else "cartesian",
                verts=S.VR if s.get("coord", "cartesian") == "cartesian" and len(s["mats"]) == 1 else s["verts"])


def ch_bcval(s):
    """values of all boundary conditions, in place"""
    b = [dict(x) for x in s["bcs"]]
    for x in b:
        for k in ("value", "P", "phi", "Kr", "Kd", "h", "T_ext", "c_ext", "lam", "n_surf", "k_bs", "Rp"):
            if k in x and not (k == "T_ext" and "dt" not in s):
                x[k] = [unscaled(x[k][0]), x[k][1]] if isinstance(x[k], list) else unscaled(x[k])
    return dict(s, bcs=b, inplace=True)


def ch_surf(s):
    """surfaces of the fluxes, in place"""
    b = [dict(x) for x in s["bcs"]]
    n = 0
    for x in b:
        if x["type"] in ("recomb", "dissoc", "mass", "customflux", "flux") and x.get("field", 0) == 0 and len(x["surf"]) == 1:
            if not any(y["type"] in ("dirichlet", "sieverts", "customdc", "kinetics") for y in b):
                x["surf"] = [3 - x["surf"][0]]
                n += 1
    return dict(s, bcs=b, inplace=True) if n else None


def ch_Tval(s):
    """temperature (or its initial value), in place"""
    if isinstance(s["T"], dict):
        return dict(s, T=dict(s["T"], init="310+15*x"), inplace=True) if "init" in s["T"] else None
    return dict(s, T=s["T"].replace("300", "320"), inplace=True)


def ch_S(s):
    m = [dict(x) for x in s["mats"]]
    if "S" not in m[0]:
        return None
    m[0]["S"] = [2.5, 0.02]
    return dict(s, mats=m)


def ch_law(s):
    m = [dict(x) for x in s["mats"]]
    if "S" not in m[0] or s.get("traps"):
        return None
    m[0]["law"] = "henry" if m[0].get("law", "sievert") == "sievert" else "sievert"
    return dict(s, mats=m)


def ch_prop(s):
    """heat conductivity and heat of transport"""
    m = [dict(x) for x in s["mats"]]
    for x in m:
        if "k_th" in x:
            x["k_th"] = "2.5"
        if "Q" in x:
            x["Q"] = "-0.1"
    return dict(s, mats=m) if m != s["mats"] else None


def ch_borders(s):
    m = [dict(x) for x in s["mats"]]
    if len(m) != 2 or "borders" not in m[0] or 0.6 not in s["verts"]:
        return None
    m[0]["borders"], m[1]["borders"] = [0, 0.6], [0.6, 1.0]
    return dict(s, mats=m)


def ch_trapk(s):
    """parameters of the traps, in place"""
    t = [dict(x) for x in s.get("traps", [])]
    for x in t:
        x["k"], x["E_p"] = 1.1 * x["k"], 1.2 * x["E_p"]
        if "prm" in x:
            x["prm"] = {a: unscaled(v) if a in ("n_amax", "eta_b", "n_max", "K", "A_0") else v for a, v in x["prm"].items()}
    return dict(s, traps=t, inplace=True) if t else None


def ch_trapmat(s):
    t = [dict(x) for x in s.get("traps", [])]
    if len(s["mats"]) < 2 or not t or s.get("settings", {}).get("traps_element_type") != "DG" or not s.get("settings", {}).get("transient", True):
        return None
    t[0]["mats"] = [1] if t[0]["mats"] == [0, 1] else [0, 1]
    if any(x.get("field") in ("1", 1) for x in s.get("srcs", [])) and t[0]["mats"] == [1]:
        pass
    return dict(s, traps=t)


def ch_soret(s):
    if not all("Q" in m for m in s["mats"]):
        return None
    st = dict(s.get("settings", {}))
    st["soret"] = not st.get("soret", False)
    return dict(s, settings=st)


def ch_chempot(s):
    if not all("S" in m for m in s["mats"]):
        return None
    st = dict(s.get("settings", {}))
    st["chemical_pot"] = not st.get("chemical_pot", False)
    return dict(s, settings=st)


def ch_export(s):
    """parameters of the exports, in place"""
    return dict(s, ex=1 - s.get("ex", 0))


def ch_rmsrc(s):
    return dict(s, srcs=s["srcs"][1:]) if s.get("srcs") else None


def ch_rmbc(s):
    n = [x for x in s["bcs"] if x["type"] not in ("kinetics",)]
    if len(n) < 2 or not s.get("settings", {}).get("transient", True) or isinstance(s["T"], dict) and not s["T"]["transient"]:
        return None
    return dict(s, bcs=[x for x in s["bcs"] if x is not n[-1]])


def ch_order(s):
    """the same traps, conditions and sources in another order"""
    if any(t.get("id") for t in s.get("traps", [])) or len(s["bcs"]) + len(s.get("srcs", [])) < 3:
        return None
    return dict(s, bcs=s["bcs"][::-1], srcs=s.get("srcs", [])[::-1])


def ch_D(s):
    m = [dict(x) for x in s["mats"]]
    m[0]["D"] = [1.4, 0.02]
    return dict(s, mats=m)


def ch_mats(s):
    """other material objects"""
    m = [dict(x) for x in s["mats"]]
    for x in m:
        x["D"] = [1.3 * x["D"][0], x["D"][1] + 0.005]
        if "S" in x:
            x["S"] = [1.4 * x["S"][0], x["S"][1]]
    return dict(s, mats=m, newmats=True)


def ch_dens(s):
    t = [dict(x) for x in s.get("traps", [])]
    for x in t:
        if "prm" not in x and "dens" in x:
            x["dens"] = "1.3+0.5*x"
            return dict(s, traps=t)
    return None


def ch_rmtrap(s):
    if not s.get("traps"):
        return None
    n = len(s["traps"])
    ok = lambda x: x.get("field", 0) not in (n, str(n))
    return dict(s, traps=s["traps"][:-1], srcs=[x for x in s.get("srcs", []) if ok(x)], bcs=[x for x in s["bcs"] if ok(x)],
                ics=[x for x in s.get("ics", []) if ok(x)])


def ch_addtrap(s):
    if len(s.get("traps", [])) > 2 or any(m.get("law") for m in s["mats"]):
        return None
    if any("prm" in t for t in s.get("traps", [])):
        return None
    return dict(s, traps=list(s.get("traps", [])) + [S.trap(3, [0])])


def ch_dt(s):
    if not s.get("settings", {}).get("transient", True):
        return None
    return dict(s, dt={"initial_value": 0.15, "milestones": [0.2]})


def ch_final(s):
    return dict(s, final=0.35) if s.get("settings", {}).get("transient", True) else None


def ch_steady(s):
    if any(b["type"] == "kinetics" for b in s["bcs"]) or any("prm" in t for t in s.get("traps", [])):
        return None
    if isinstance(s["T"], dict) or any(m.get("law") for m in s["mats"]) or any(b.get("order") == 2 for b in s["bcs"]):
        return None
    st = dict(s.get("settings", {}))
    if st.get("transient", True):
        st["transient"] = False
        return dict(s, settings=st, ics=[])
    st["transient"] = True
    return dict(s, settings=st, final=0.4, dt={"initial_value": 0.2})


def ch_heatmode(s):
    if not isinstance(s["T"], dict) or "init" not in s["T"]:
        return None
    return dict(s, T=dict(s["T"], transient=not s["T"]["transient"]))


def ch_elem(s):
    st = dict(s.get("settings", {}))
    if not s.get("traps"):
        return None
    st["traps_element_type"] = "CG" if st.get("traps_element_type") == "DG" else "DG"
    return dict(s, settings=st)


CHANGES = {k[3:]: v for k, v in list(globals().items()) if k.startswith("ch_")}
PAIRS = ("T", "bc", "mesh", "rmtrap", "addtrap", "steady", "dt", "heatmode")


def cases(tier):
    out = []
    for name, sp in bases().items():
        prior = [["init"], ["fail"], ["stop"], ["run"]]
        prior += [list(p) for p in itertools.product(("run", "fail", "stop"), repeat=2)]
        for h in prior:
            if name == "steady" and ("stop" in h):
                continue
            out.append({"id": f"{name}-{'+'.join(h)}", "base": name, "hist": h, "group": name, "cost": 2})
        for c in CHANGES:
            if CHANGES[c](sp) is None:
                continue
            for first in ("run", "fail"):
                if first == "fail" and tier != "thorough" and c not in ("T", "mesh", "rmtrap"):
                    continue
                out.append({"id": f"{name}-{first}+{c}", "base": name, "hist": [first, c],
                            "group": f"{name}", "cost": 4})
        # there and back again
        for c in ("export", "coord", "chempot", "soret", "steady", "elem", "heatmode"):
            if CHANGES[c](sp) and CHANGES[c](CHANGES[c](sp)) and (tier == "thorough" or c not in ("steady", "elem", "coord")):
                out.append({"id": f"{name}-run+{c}+run+{c}", "base": name, "hist": ["run", c, "run", c], "group": f"{name}", "cost": 6})
        if name in ("plain", "steady", "heat") or tier == "thorough":
            for a, b in itertools.permutations(PAIRS if tier != "thorough" else CHANGES, 2):
                s1 = CHANGES[a](sp)
                s2 = CHANGES[b](s1) if s1 else None
                if s2:
                    out.append({"id": f"{name}-run+{a}+run+{b}", "base": name, "hist": ["run", a, "run", b],
                                "group": f"{name}-2", "cost": 6})
    return out


def exports(d, base, spec):
    """all kinds of exports (the same ones for the live and for the new model)"""
    import festim as F

    suf = {"cartesian": "", "cylindrical": "Cylindrical", "spherical": "Spherical"}[spec.get("coord", "cartesian")]
    get = lambda n: getattr(F, n + suf)
    therm = "k_th" in base["mats"][0]
    mid = [0.3 + spec.get("x0", 0.0), 0.3] if "rect" in spec else 0.7 * min(spec["verts"]) + 0.3 * max(spec["verts"])
    q = [get("TotalVolume")("solute", 1), get("TotalVolume")("retention", 1), get("SurfaceFlux")("solute", 2),
         get("AverageVolume")("T", 1), F.MaximumVolume("solute", 1), get("TotalSurface")("solute", 1),
         get("AverageSurface")("retention", 2), F.MinimumSurface("T", 1), F.MaximumSurface("solute", 2), F.MinimumVolume("retention", 1),
         F.PointValue("solute", mid), get("AverageVolume")("solute", 1)]
    if len(base["mats"]) > 1:
        q += [get("TotalVolume")("solute", 2), get("AverageVolume")("retention", 2)]
    if therm:
        q += [get("SurfaceFlux")("T", 1)]
        if not suf:
            q += [F.ThermalFlux(2)]
    tr = len(base.get("traps", [])) > 1
    if tr:
        q += [get("TotalVolume")("1", 1), F.MaximumVolume("1", 1)]
    e = [
        F.DerivedQuantities(q, filename=d + "/q.csv", nb_iterations_between_compute=1,
                            nb_iterations_between_exports=None),
        F.DerivedQuantities([get("TotalVolume")("retention", 1)], filename=d + "/q2.csv",
                            nb_iterations_between_compute=2, nb_iterations_between_exports=1),
        F.XDMFExport("solute", label="c", filename=d + "/c.xdmf", mode=1),
        F.XDMFExport("T", label="T", filename=d + "/T.xdmf", mode="last"),
        F.XDMFExport("retention", label="r", filename=d + "/r.xdmf", mode=2, checkpoint=False),
    ]
    if tr:
        e += [F.XDMFExport("1", label="1", filename=d + "/1.xdmf", mode=2)]
    if "rect" not in spec:
        e += [F.TXTExport("solute", filename=d + "/c.txt"), F.TXTExport("retention", filename=d + "/r.txt", filter=False, write_at_last=True),
              F.TXTExport("T", filename=d + "/T.txt", write_at_last=True)]
    if spec.get("ex"):
        tune(e, spec)
        e[3] = F.XDMFExport("T", label="T", filename=d + "/T2.xdmf", mode=2)
    return e


def tune(e, spec):
    """another set of parameters of the exports"""
    import festim as F

    on = bool(spec.get("ex"))
    e[0].nb_iterations_between_compute = 2 if on else 1
    e[0].nb_iterations_between_exports = 1 if on else None
    e[0][5].surface = 2 if on else 1
    e[0][3].field = "solute" if on else "T"
    for x in e:
        if isinstance(x, F.XDMFExport):
            if x.label == "c":
                x.mode = "last" if on else 1
            if x.label == "T":
                x.mode = 2 if on else "last"
                x.filename = x.filename.split("T")[0] + ("T2.xdmf" if on else "T.xdmf")
        if isinstance(x, F.TXTExport) and x.field == "T":
            x.times = [0.15, 0.3] if on and spec.get("settings", {}).get("transient", True) else None
            x.write_at_last = not on


def set_bc(o, a, b):
    """the attributes of a condition that differ"""
    from mc import build as B

    w = B.make_bc(a)
    names = {"value": ["value"], "P": ["pressure", "P"], "phi": ["phi"], "Kr": ["Kr_0"], "Kd": ["Kd_0"], "h": ["h_coeff"], "T_ext": ["T_ext"],
             "c_ext": ["c_ext"], "lam": ["lambda_IS"], "n_surf": ["n_surf"], "k_bs": ["k_bs"], "Rp": ["R_p"], "surf": ["surfaces"]}
    for k, ns in names.items():
        if a.get(k) != b.get(k):
            for n in ns:
                if hasattr(o, n):
                    setattr(o, n, getattr(w, n))


def run(case):
    import os
    import re

    import festim as F
    import numpy as np
    from mc import build as B
    from mc.explore import Controlled

    base = bases()[case["base"]]
    os.makedirs("live", exist_ok=True)
    os.makedirs("fresh", exist_ok=True)
    ex = exports("live", base, base)
    live = B.Run(base, extra_exports=ex)
    sim = live.sim
    spec = base
    runs = 0

    def go(how):
        nonlocal runs
        sim.initialise_done = True
        live.initialise()
        if how == "init":
            return
        if how in ("fail", "stop"):
            trans = spec.get("settings", {}).get("transient", True)
            c = Controlled(live, "ax" if how == "fail" and trans else ("x" if how == "fail" else ""), True, 60)
            if how == "stop":
                c.horizon = 1
            if how == "fail":
                c.tail = "x"
            sim.h_transport_problem.newton_solver = c
            try:
                live.run()
            except Exception:
                pass
            return
        live.run()
        runs += 1

    def change(new):
        """apply the difference between two specs with the public attributes"""
        nonlocal spec, ex
        if new.pop("newmats", False):
            live.mats = B.make_materials(new)
            sim.materials = live.mats if len(live.mats) > 1 else live.mats[0]
            for o, t in zip(live.traps, new.get("traps", [])):
                if not t.get("by_name"):
                    o.materials = [live.mats[i] for i in t["mats"]]
        for m, a, b in zip(live.mats, new["mats"], spec["mats"]):
            if a["D"] != b["D"]:
                m.D_0, m.E_D = a["D"]
            if a.get("S") != b.get("S"):
                m.S_0, m.E_S = a["S"]
            if a.get("law") != b.get("law"):
                m.solubility_law = a.get("law", "sievert")
            if a.get("borders") != b.get("borders"):
                m.borders = a["borders"]
            for k, n in (("k_th", "thermal_cond"), ("Q", "Q")):
                if a.get(k) != b.get(k):
                    setattr(m, n, B.prop(a[k]))
        if "rect" in new:
            if new["rect"] != spec["rect"]:
                me, vm, sf = B.mesh2d(new)
                sim.mesh = F.Mesh(me, vm, sf, type=new.get("coord", "cartesian"))
                live.grid = B.grid_of(new, me, vm, sf)
        elif (new["verts"], new.get("coord")) != (spec["verts"], spec.get("coord")):
            sim.mesh = F.MeshFromVertices(new["verts"], type=new.get("coord", "cartesian"))
            if new.get("coord") != spec.get("coord"):
                ex = exports("live", base, new)
        if new.get("ex", 0) != spec.get("ex", 0):
            tune(ex, new)
        inp = new.pop("inplace", False)
        if isinstance(new["T"], dict) and new["T"] != spec["T"]:
            sim.T.transient = new["T"]["transient"]
            if new["T"].get("init") != spec["T"].get("init"):
                sim.T.initial_condition = B.sym(new["T"]["init"])
        elif new["T"] != spec["T"]:
            if inp:
                sim.T.value = B.sym(new["T"])
            else:
                sim.T = F.Temperature(B.sym(new["T"]))
        if new["bcs"] != spec["bcs"]:
            if inp:
                for o, a, b in zip(sim.boundary_conditions, new["bcs"], spec["bcs"]):
                    set_bc(o, a, b)
            else:
                keep = {str(b): o for b, o in zip(spec["bcs"], sim.boundary_conditions)}
                sim.boundary_conditions = [keep.get(str(b)) or B.make_bc(b) for b in new["bcs"]]
        if new.get("srcs", []) != spec.get("srcs", []):
            keep = {str(b): o for b, o in zip(spec.get("srcs", []), sim.sources)}
            sim.sources = [keep.get(str(b)) or B.make_src(b) for b in new.get("srcs", [])]
        if new.get("ics", []) != spec.get("ics", []):
            sim.initial_conditions = [F.InitialCondition(field=i["field"], value=B.sym(i["value"]))
                                      for i in new.get("ics", [])]
        if new.get("traps", []) != spec.get("traps", []):
            if inp:
                for o, t, t0 in zip(live.traps, new["traps"], spec["traps"]):
                    o.k_0, o.E_p = t["k"], t["E_p"]
                    for k, v in t.get("prm", {}).items():
                        if v != t0["prm"][k]:
                            w = B.make_trap(t, live.mats)
                            setattr(o, k, getattr(w, k))
            else:
                keep = {str(b): o for b, o in zip(spec.get("traps", []), live.traps)}
                live.traps = [keep.get(str(t)) or B.make_trap(t, live.mats) for t in new.get("traps", [])]
                sim.traps = live.traps
        st0, st1 = spec.get("settings", {}), new.get("settings", {})
        if st0 != st1 or new.get("final") != spec.get("final"):
            sim.settings.chemical_pot = st1.get("chemical_pot", False)
            sim.settings.soret = st1.get("soret", False)
            sim.settings.traps_element_type = st1.get("traps_element_type", "CG")
            sim.settings.transient = st1.get("transient", True)
            sim.settings.final_time = new.get("final") if st1.get("transient", True) else None
        if not st1.get("transient", True):
            sim.dt = None
        elif new.get("dt") != spec.get("dt") or not st0.get("transient", True):
            sim.dt = F.Stepsize(**new["dt"])
        spec = new
        live.sp = new
        live.ref = B.RefModel(new, live.grid if "rect" in new else B.grid_of(new, sim.mesh.mesh))
        # observe the traps that exist now
        keep = [q for q in live.dq if isinstance(q, F.AdsorbedHydrogen)]
        live.dq = F.DerivedQuantities(
            keep + [B.Snapshot(str(i), live) for i in live.ref.trap_ids()]
            + [B.Snapshot("T", live), B.Snapshot("solute", live)])
        sim.exports = [live.dq] + ex

    for h in case["hist"]:
        if h in ("run", "fail", "stop", "init"):
            go(h)
        else:
            change(CHANGES[h](spec))
    for d in ("live", "fresh"):
        for f in os.listdir(d):
            if f.endswith((".csv", ".txt")):
                os.remove(os.path.join(d, f))
    go("run")
    fx = exports("fresh", base, spec)
    fresh = B.Run(spec, extra_exports=fx)
    fresh.initialise()
    fresh.run()

    bad = []

    def differ(a, b):
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            return True
        return bool(np.any(np.abs(a - b) > 1e-8 * (np.abs(b) + 1e-3 * np.max(np.abs(b), initial=0.0) + 1e-12)))

    if len(live.rows) != len(fresh.rows):
        bad.append(f"{len(live.rows)} steps instead of {len(fresh.rows)}: "
                   f"{[r['t'] for r in live.rows]} / {[r['t'] for r in fresh.rows]}")
    else:
        for a, b in zip(live.rows, fresh.rows):
            for k in ("t", "c", "T"):
                if differ(a[k], b[k]):
                    bad.append(f"{k} differs at t={b['t']}")
            for i, (x, y) in enumerate(zip(a["traps"], b["traps"])):
                if differ(x, y):
                    bad.append(f"trap {i} differs at t={b['t']}")
            for i, (x, y) in enumerate(zip(a["dens"], b["dens"])):
                if x is not None and differ(x, y):
                    bad.append(f"trap density {i} differs at t={b['t']}")
            if a.get("cs") != b.get("cs") and differ(list(a["cs"].values()), list(b["cs"].values())):
                bad.append(f"adsorbed hydrogen differs at t={b['t']}")
    for x, y in zip(ex[:2], fx[:2]):
        if len(x.data) != len(y.data) or x.data[:1] != y.data[:1] or differ(x.data[1:], y.data[1:]):
            bad.append(f"derived quantities differ: {x.data[-1:]} / {y.data[-1:]}")
    for f in ("q.csv", "q2.csv", "c.txt", "r.txt", "T.txt"):
        pa, pb = os.path.join("live", f), os.path.join("fresh", f)
        if os.path.exists(pa) != os.path.exists(pb):
            bad.append(f"{f} written: {os.path.exists(pa)} / {os.path.exists(pb)}")
        elif os.path.exists(pb):
            la, lb = open(pa).read().split("\n"), open(pb).read().split("\n")
            if la[0] != lb[0] or len(la) != len(lb) or any(
                differ([float(v) for v in u.split(",")], [float(v) for v in w.split(",")])
                for u, w in zip(la[1:], lb[1:]) if u and w
            ):
                bad.append(f"{f} differs: {la[0]} ({len(la)} lines) / {lb[0]} ({len(lb)} lines)")
    dg = spec.get("settings", {}).get("traps_element_type") == "DG"
    spaces = {"c": "DG" if spec.get("settings", {}).get("chemical_pot") else "CG", "T": "CG", "1": "DG" if dg else "CG", "r": None}
    for f, el in spaces.items():
        name = "T2" if f == "T" and spec.get("ex") else f
        pa, pb = (os.path.join(d, name + ".xdmf") for d in ("live", "fresh"))
        ta, tb = (
            [float(v) for v in re.findall(r'<Time Value="([^"]*)"', open(p).read())]
            if os.path.exists(p) else None for p in (pa, pb))
        if tb is None and ta is not None and not any(getattr(x, "label", None) == f for x in fx):
            continue
        if (ta is None) != (tb is None) or (ta is not None and differ(ta, tb)):
            bad.append(f"{f}.xdmf holds the times {ta} instead of {tb}")
        elif el and tb:
            import fenics

            u = [fenics.Function(fenics.FunctionSpace(r.sim.mesh.mesh, el, 1)) for r in (live, fresh)]
            for k in range(len(tb)):
                for v, p in zip(u, (pa, pb)):
                    with fenics.XDMFFile(p) as g:
                        g.read_checkpoint(v, f, k)
                if differ(u[0].vector().get_local(), u[1].vector().get_local()):
                    bad.append(f"{f}.xdmf holds other values at t={tb[k]}")
                    break
    return {"violations": bad[:4], "states": len(fresh.rows) + len(live.rows), "transitions": len(case["hist"]) + 1,
            "traces": 1, "outcome": f"{len(fresh.rows)}:{float(np.sum(fresh.rows[-1]['c'])):.6g}"}
