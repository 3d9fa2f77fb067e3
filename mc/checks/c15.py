"""Models that contradict themselves are rejected before any time step; their
valid neighbours are accepted."""

import copy
import itertools

from mc import specs as S

BOUNDS = {
    "quick": "borders of three materials moved at every end on meshes of 1e-9 to 1e3; all assignments of 4 ids to 4 subdomains of 3 materials; 16 models (one per part of the physics, two materials, 2D) x every single fault of a catalogue (times, fields, surfaces, materials, traps, "
    "temperature, exports, mesh) at every place where it applies; all pairs of 12 kinds of boundary conditions x {same, other, overlapping} surfaces x both "
    "orders x names of the field; all values of the checked attributes over small domains of wrong and right values; valid neighbours of each fault",
    "thorough": "as quick, and all triples of kinds of boundary conditions on all assignments to the two surfaces",
}
ASSUMPTIONS = ["rejection: an exception from the constructor, the setter or initialise() (for exports of unknown fields: at the latest from run())"]

# kind -> (specification, is it exclusive on its surface)
KINDS = {
    "dirichlet": ({"type": "dirichlet", "value": 1.0}, True),
    "sieverts": ({"type": "sieverts", "S": [1.2, 0.03], "P": 2.0}, True),
    "henrys": ({"type": "henrys", "H": [1.2, 0.03], "P": 2.0}, True),
    "implantdc": ({"type": "implantdc", "phi": 1.0, "Rp": 0.1, "D": [1.1, 0.02], "Kr": [0.5, 0.02]}, True),
    "customdc": ({"type": "customdc", "fun": "p+0*T", "prm": 1.0}, True),
    "kinetics": (dict(S.KIN), True),
    "flux": ({"type": "flux", "value": 0.8}, False),
    "recomb": ({"type": "recomb", "Kr": 0.6, "E": 0.03, "order": 2}, False),
    "dissoc": ({"type": "dissoc", "Kd": 0.9, "E": 0.02, "P": 2.0}, False),
    "mass": ({"type": "mass", "h": 0.6, "c_ext": 0.3}, False),
    "customflux": ({"type": "customflux", "fun": "-p*c", "prm": 0.5}, False),
}
TKINDS = {
    "dirichlet": ({"type": "dirichlet", "field": "T", "value": 320.0}, True),
    "customdc": ({"type": "customdc", "field": "T", "fun": "p+0*T", "prm": 320.0}, True),
    "flux": ({"type": "flux", "field": "T", "value": 3.0}, False),
    "convective": ({"type": "convective", "h": 0.8, "T_ext": 320.0}, False),
    "customflux": ({"type": "customflux", "field": "T", "fun": "-0.3*(T-p)", "prm": 320.0}, False),
}
SURFS = [([1], [1]), ([1], [2]), ([1, 2], [2]), ([2], [1, 2]), ([1, 2], [1, 2])]


def models():
    d = S.features()
    d["two"] = S.base(
        T="300+30*t", mats=[S.mat(1, borders=[0, 0.5]), S.mat(2, borders=[0.5, 1.0])], traps=[S.trap(1, [0]), S.trap(2, [0, 1])],
        settings={"traps_element_type": "DG"}, bcs=[{"type": "dirichlet", "value": 1.0, "surf": [1]}])
    d["rect"] = S.base(T=320.0, bcs=[{"type": "dirichlet", "value": 1.0, "surf": [1, 3]}, {"type": "flux", "value": 1.0, "surf": [2]}])
    del d["rect"]["verts"]
    d["rect"]["rect"] = [2, 2]
    for v in ((1,), (2,), (2, 1)):
        # (adsorption on some of the surfaces only; each surface in its own condition)
        d[f"kin{v}"] = S.base(T="300+30*t", bcs=[dict(S.KIN, surf=[k]) for k in v])
    d["twoheat"] = S.base(
        T={"transient": True, "init": "300+20*x"}, mats=[S.therm(1, borders=[0, 0.5]), S.therm(2, borders=[0.5, 1.0])],
        bcs=[{"type": "dirichlet", "field": "T", "value": 320.0, "surf": [1]}])
    return d


# -- faults of a specification: (name, mutated spec, valid?, keyword for special building)
def faults(sp):
    out = [("asis", sp, True, None)]

    def add(name, s, ok=False, how=None):
        out.append((name, s, ok, how))

    def mut(**k):
        s = copy.deepcopy(sp)
        s.update(k)
        return s

    nt = len(sp.get("traps", []))
    nm = len(sp["mats"])
    heat = isinstance(sp["T"], dict)
    add("nofinal", sp, False, "nofinal")
    add("nodt", sp, False, "nodt")
    add("noT", sp, False, "noT")
    add("steady-with-dt", sp, False, "steadydt")
    for bad in ("nope", nt + 1, str(nt + 1), "retention", "t"):
        add(f"bcfield-{bad}", S.merge(sp, {"bcs": [{"type": "dirichlet", "value": 1.0, "surf": [2], "field": bad}]}))
        add(f"icfield-{bad}", S.merge(sp, {"ics": [{"field": bad, "value": 1.0}]}))
        add(f"srcfield-{bad}", S.merge(sp, {"srcs": [{"type": "source", "value": 1.0, "vol": [1], "field": bad}]}))
    for i in range(1, nt + 1):
        for nm_ in (i, str(i)):
            add(f"trapbc-{nm_!r}", S.merge(sp, {"bcs": [{"type": "dirichlet", "value": 0.5, "surf": [2], "field": nm_}]}), True)
            add(f"trapflux-{nm_!r}", S.merge(sp, {"bcs": [{"type": "flux", "value": 0.5, "surf": [2], "field": nm_}]}))
            add(f"trapic-{nm_!r}", S.merge(sp, {"ics": [{"field": nm_, "value": 0.1}]}), True)
            add(f"trapsrc-{nm_!r}", S.merge(sp, {"srcs": [{"type": "source", "value": 0.1, "vol": [1], "field": nm_}]}), True)
    if not heat:
        add("Tbc", S.merge(sp, {"bcs": [{"type": "dirichlet", "value": 300.0, "surf": [2], "field": "T"}]}))
        add("Tflux", S.merge(sp, {"bcs": [{"type": "flux", "value": 3.0, "surf": [2], "field": "T"}]}))
        add("Tconv", S.merge(sp, {"bcs": [{"type": "convective", "h": 1.0, "T_ext": 300.0, "surf": [2]}]}))
        add("Tsrc", S.merge(sp, {"srcs": [{"type": "source", "value": 3.0, "vol": [1], "field": "T"}]}))
    else:
        add("Tsrc", S.merge(sp, {"srcs": [{"type": "source", "value": 3.0, "vol": [1], "field": "T"}]}), True)
        for key in ("k_th", "cp", "rho"):
            need = key == "k_th" or sp["T"]["transient"]
            for sub in [set(range(nm))] + [{i} for i in range(nm) if nm > 1]:
                s = copy.deepcopy(sp)
                for i in sub:
                    del s["mats"][i][key]
                # a property of some materials only is never accepted
                add(f"no-{key}-{sorted(sub)}", s, not need and len(sub) == nm)
        if sp["T"]["transient"]:
            s = copy.deepcopy(sp)
            del s["T"]["init"]
            add("noinit", s)
    for i in range(nm):
        if sp.get("settings", {}).get("chemical_pot"):
            s = copy.deepcopy(sp)
            del s["mats"][i]["S"]
            add(f"noS-{i}", s)
        if sp.get("settings", {}).get("soret"):
            s = copy.deepcopy(sp)
            del s["mats"][i]["Q"]
            add(f"noQ-{i}", s)
        if nm > 1:
            for key, v in (("S", [1.0, 0.1]), ("Q", 0.1), ("k_th", 1.0)):
                if key in sp["mats"][i]:
                    continue
                s = copy.deepcopy(sp)
                s["mats"][i][key] = v
                add(f"only-{key}-{i}", s)
            s = copy.deepcopy(sp)
            del s["mats"][i]["borders"]
            add(f"noborders-{i}", s)
            for j in range(i):
                s = copy.deepcopy(sp)
                s["mats"][i]["id"] = s["mats"][j]["id"]
                add(f"sameid-{j}{i}", s)
                s = copy.deepcopy(sp)
                s["mats"][i]["id"] = [s["mats"][i]["id"]]
                s["mats"][j]["id"] = [s["mats"][j]["id"]]
                s["mats"][i]["borders"] = [s["mats"][i]["borders"]]
                s["mats"][j]["borders"] = [s["mats"][j]["borders"]]
                add(f"listid-{j}{i}", s, True)
                s = copy.deepcopy(s)
                s["mats"][i]["id"] = list(s["mats"][j]["id"])
                add(f"samelistid-{j}{i}", s)
            for k, shift in ((0, 0.05), (1, 0.05), (0, -0.05), (1, -0.05)):
                s = copy.deepcopy(sp)
                s["mats"][i]["borders"][k] = round(s["mats"][i]["borders"][k] + shift, 4)
                add(f"border-{i}{k}{shift}", s)
    if nm > 1:
        s = copy.deepcopy(sp)
        for m in s["mats"]:
            del m["borders"]
        add("noborders", s)
    for i, t in enumerate(sp.get("traps", [])):
        add(f"trapmat-{i}", sp, False, ["trapmat", i])
        add(f"trapmatid-{i}", sp, False, ["trapmatid", i])
        add(f"trapdup-{i}", sp, False, ["trapdup", i])
        s = copy.deepcopy(sp)
        s["traps"][i]["by_name"] = True
        add(f"trapname-{i}", s, True)
    if nt and sp.get("settings", {}).get("chemical_pot"):
        for i in range(nm):
            s = copy.deepcopy(sp)
            s["mats"][i]["law"] = "henry"
            add(f"henrytrap-{i}", s, not any(i in t["mats"] for t in s["traps"]))
    kin = {v for b in sp.get("bcs", []) if b["type"] == "kinetics" for v in b["surf"]}
    for v in (1, 2, 3):
        add(f"adsorbed-{v}", sp, v in kin, ["adsorbed", v])
    for fld in ("nope", str(nt + 1)):
        for k in ("xdmf", "txt", "dq"):
            add(f"export-{k}-{fld}", sp, False, ["export", k, fld])
    for fld in ["solute", "T", "retention", "0"] + [str(i) for i in range(1, nt + 1)]:
        add(f"export-{fld}", sp, True, ["export", "dq", fld])
    if "rect" in sp:
        add("sph2d", mut(coord="spherical"))
        add("cyl2d", mut(coord="cylindrical", x0=1.0), True)
        add("kin2d", S.merge(mut(bcs=[]), {"bcs": [dict(S.KIN, surf=[4])]}))
    return out


# -- values of checked attributes -------------------------------------------
def values():
    """(name, expression in festim's namespace, valid?)"""
    out = []

    def add(e, ok):
        out.append((e, ok))

    for v, ok in ((0.3, 1), (1, 1), (0, 0), (-0.1, 0), ("'a'", 0), ("None", 0), ("[1.0]", 0)):
        add(f"F.RadioactiveDecay({v}, 1)", ok)
        add(f"setattr(F.RadioactiveDecay(0.3, 1), 'decay_constant', {v})", ok)
    for v, ok in (("1", 1), ("'last'", 1), ("7", 1), ("0", 0), ("-2", 0), ("'first'", 0), ("1.5", 0), ("[1]", 0)):
        add(f"F.XDMFExport('solute', mode={v})", ok)
        add(f"F.TrapDensityXDMF(trap, mode={v})", ok)
    for v, ok in (("True", 1), ("False", 1), ("1", 0), ("'yes'", 0), ("None", 0)):
        add(f"F.XDMFExport('solute', checkpoint={v})", ok)
    for v, ok in (("'a.xdmf'", 1), ("None", 1), ("'a.txt'", 0), ("'a'", 0), ("3", 0), ("'a.xdmf.h5'", 0), ("['a.xdmf']", 0)):
        add(f"F.XDMFExport('solute', filename={v})", ok)
    for v, ok in (("'f'", 1), ("3", 0), ("['f']", 0)):
        add(f"F.XDMFExport('solute', folder={v})", ok)
    for v, ok in (("'a.txt'", 1), ("'a.csv'", 0), ("'a'", 0), ("3", 0), ("['a.txt']", 0)):
        add(f"F.TXTExport('solute', filename={v})", ok)
    for v, ok in (("'a.csv'", 1), ("None", 1), ("'a.txt'", 0), ("'a'", 0), ("3", 0)):
        add(f"F.DerivedQuantities([], filename={v})", ok)
    for q in ("TotalVolume", "AverageVolume", "MaximumVolume", "MinimumVolume"):
        for v, ok in (("1", 1), ("7", 1), ("1.0", 0), ("'1'", 0), ("None", 0)):
            add(f"F.{q}('solute', {v})", ok)
    for q in ("TotalSurface", "AverageSurface", "MaximumSurface", "MinimumSurface", "SurfaceFlux"):
        for v, ok in (("1", 1), ("7", 1), ("1.0", 0), ("'1'", 0)):
            add(f"F.{q}('solute', {v})", ok)
    for v, ok in (("1", 1), ("1.0", 0), ("'1'", 0)):
        add(f"F.ThermalFlux({v})", ok)
        add(f"F.HydrogenFlux({v})", ok)
        add(f"F.AdsorbedHydrogen({v})", ok)
    pi = "3.141592653589793"
    az2 = ((f"(0, 2*{pi})", 1), (f"(0, {pi})", 1), (f"(0.5, 2*{pi})", 1), (f"(0, 2*{pi}+0.1)", 0), ("(-0.1, 1)", 0))
    half = ((f"(0, {pi})", 1), ("(0.5, 1)", 1), (f"(0, {pi}+0.1)", 0), ("(-0.1, 1)", 0), (f"(0, 2*{pi})", 0))
    sym = ((f"(-{pi}, {pi})", 1), (f"(0, {pi})", 1), (f"(-{pi}-0.1, 1)", 0), (f"(0, {pi}+0.1)", 0), (f"(0, 2*{pi})", 0))
    for cls, rng, lst in (("SurfaceFluxCylindrical", "azimuth", az2), ("TotalVolumeCylindrical", "azimuth", az2), ("TotalSurfaceCylindrical", "azimuth", az2),
                          ("SurfaceFluxSpherical", "azimuth", half), ("TotalVolumeSpherical", "azimuth", az2), ("TotalSurfaceSpherical", "azimuth", az2),
                          ("SurfaceFluxSpherical", "polar", sym), ("TotalVolumeSpherical", "polar", half), ("TotalSurfaceSpherical", "polar", half)):
        for v, ok in lst:
            add(f"F.{cls}('solute', 1, {rng}_range={v})", ok)
            add(f"setattr(F.{cls}('solute', 1), '{rng}_range', {v})", ok)
    for v, ok in (("'henry'", 1), ("'sievert'", 1), ("'sieverts'", 0), ("'Henry'", 0), ("None", 0)):
        add(f"F.Material(1, 1, 0, solubility_law={v})", ok)
    for v, ok in (("S_0=1, E_S=0", 1), ("S_0=1", 0), ("E_S=1", 0), ("", 1), ("S_0=0, E_S=0.1", 1), ("E_S=0", 0), ("S_0=0", 0)):
        add(f"F.Material(1, 1, 0, {v})", ok)
    for v, ok in (("mat", 1), ("'a'", 1), ("[mat, 'a']", 1), ("1", 0), ("[1]", 0), ("[mat, 1]", 0), ("None", 0), ("1.5", 0)):
        add(f"F.Trap(1, 1, 1, 1, {v}, 1)", ok)
    for v, ok in (("'a.xdmf', label='c', time_step=0", 1), ("'a.xdmf', label='c', time_step=-1", 1), ("'a.xdmf', time_step=0", 0),
                  ("'a.xdmf', label='c'", 0), ("1.0", 1), ("'a.xdmf'", 0)):
        add(f"F.InitialCondition(0, {v})", ok)
    # the attributes of the simulation
    for a, good, bad in (
        ("traps", ["None", "[]", "trap", "[trap]", "F.Traps([trap])"], ["1", "'a'", "mat", "[mat]", "[trap, 1]"]),
        ("materials", ["None", "[]", "mat", "[mat]", "F.Materials([mat])"], ["1", "'a'", "trap", "[trap]", "[mat, 1]"]),
        ("exports", ["None", "[]", "xdmf", "[xdmf]", "dq", "[dq, xdmf]", "F.Exports([xdmf])"], ["1", "'a'", "mat", "[mat]", "[xdmf, 1]"]),
        ("T", ["None", "300", "300.5", "F.Temperature(300)", "300+F.x", "F.HeatTransferProblem()"], ["'300'", "[300]", "mat"]),
        ("dt", ["None", "1", "0.5", "F.Stepsize(1)"], ["'1'", "[1]", "mat"]),
    ):
        for ok, lst in ((1, good), (0, bad)):
            for v in lst:
                add(f"setattr(F.Simulation(), '{a}', {v})", ok)
                kw = "temperature" if a == "T" else a
                add(f"F.Simulation({kw}={v})", ok)
    # the containers
    for cls, good, bad in (("F.Traps", "trap", ["mat", "1", "'a'", "None"]), ("F.Materials", "mat", ["trap", "1", "'a'", "None"]),
                           ("F.Exports", "xdmf", ["mat", "1", "'a'", "None"]), ("F.Exports", "dq", []),
                           ("F.DerivedQuantities", "quantity", ["xdmf", "1", "'a'", "None", "mat"])):
        for ok, lst in ((1, [good]), (0, bad)):
            for v in lst:
                for op in (f"{cls}([{v}])", f"{cls}([{good}, {v}])", f"{cls}([{good}]).append({v})", f"{cls}([{good}]).insert(0, {v})",
                           f"{cls}([{good}]).extend([{v}])", f"{cls}([{good}]).extend([{good}, {v}])", f"{cls}([{good}]).__setitem__(0, {v})",
                           f"{cls}([{good}]).extend({cls}([{v}]))"):
                    add(op, ok)
        if good != "dq":
            add(f"{cls}({good})", False)
    return out


def cases(tier):
    out = []
    big = tier == "thorough"
    for name, sp in models().items():
        fs = faults(sp)
        for k in range(0, len(fs), 12):
            out.append({"id": f"model-{name}-{k}", "model": name, "lo": k, "hi": k + 12, "group": f"m{name}", "cost": 3})
    vs = values()
    for k in range(0, len(vs), 60):
        out.append({"id": f"values-{k}", "values": [k, k + 60], "group": "values", "cost": 1})
    for a in KINDS:
        out.append({"id": f"pairs-{a}", "pairs": a, "on": "mobile", "group": "pairs" + a, "cost": 4})
        for b in KINDS if big else ():
            out.append({"id": f"triples-{a}-{b}", "triples": [a, b], "group": "triples" + a, "cost": 4})
    for a in TKINDS:
        out.append({"id": f"Tpairs-{a}", "pairs": a, "on": "T", "group": "Tpairs" + a, "cost": 3})
    for k in range(1, 5):
        out.append({"id": f"ids-{k}", "ids": k, "group": "ids", "cost": 4})
    out.append({"id": "pairs-traps", "pairs": "dirichlet", "on": "trap", "group": "ptrap", "cost": 3})
    for L in (1e-9, 1e-6, 1e-3, 1.0, 1e3):
        out.append({"id": f"borders-{L:g}", "borders": L, "group": "borders", "cost": 3})
    for c, d in itertools.product(("cartesian", "cylindrical", "spherical"), (1, 2, 3)):
        out.append({"id": f"dim-{c}-{d}", "coord": c, "dim": d, "group": f"dim{d}", "cost": 1})
    return out


def attempt(build):
    """None if accepted, else the exception"""
    try:
        build()
    except Exception as e:  # noqa: BLE001
        return e
    return None


def build_spec(sp, how):
    import festim as F
    from mc.build import Run

    def go():
        s = copy.deepcopy(sp)
        if isinstance(how, list) and how[0] in ("trapmat", "trapmatid", "trapdup"):
            r = Run(s)
            t = r.traps[how[1]]
            if how[0] == "trapmat":
                t.materials = ["nowhere"]
            elif how[0] == "trapmatid":
                t.materials = [*t.materials, "nowhere"]
            else:
                t.materials = [t.materials[0], t.materials[0]]
            r.initialise()
            return
        extra = []
        if isinstance(how, list) and how[0] == "adsorbed":
            extra = [F.DerivedQuantities([F.AdsorbedHydrogen(how[1])])]
        if isinstance(how, list) and how[0] == "export":
            fld = how[2]
            extra = [{"xdmf": lambda: F.XDMFExport(fld, folder="."), "txt": lambda: F.TXTExport(fld, filename="a.txt"),
                      "dq": lambda: F.DerivedQuantities([F.TotalVolume(fld, 1)])}[how[1]]()]
            s["final"], s["dt"] = 0.1, {"initial_value": 0.1}
        r = Run(s, extra_exports=extra, observe=False)
        if how == "nofinal":
            r.sim.settings.final_time = None
        elif how == "nodt":
            r.sim.dt = None
        elif how == "noT":
            r.sim.T = None
        elif how == "steadydt":
            r.sim.settings.transient = False
        r.sim.initialise()
        if isinstance(how, list) and how[0] == "export":
            r.sim.run()

    return go


def run(case):
    import festim as F
    import fenics as f

    bad, n = [], 0

    def expect(name, build, ok):
        nonlocal n
        n += 1
        e = attempt(build)
        if ok and e is not None:
            bad.append(f"{name}: valid, but rejected with {type(e).__name__}: {str(e)[:120]}")
        if not ok and e is None:
            bad.append(f"{name}: invalid, but accepted")

    if "borders" in case:
        # three materials of a mesh of any length; one end of one of them moved
        L = case["borders"]

        def borders(b):
            sp = S.base(mats=[S.mat(i + 1, borders=list(p)) for i, p in enumerate(b)], verts=[v * L for v in S.V])
            return build_spec(sp, None)

        right = [[0.0, 0.25 * L], [0.25 * L, 0.5 * L], [0.5 * L, L * max(S.V)]]
        for o in itertools.permutations(range(3)):
            expect(f"{o} of {right}", borders([right[i] for i in o]), True)
        for i, k, shift in itertools.product(range(3), range(2), (-0.2, -0.05, -1e-3, 1e-3, 0.05, 0.2)):
            b = copy.deepcopy(right)
            b[i][k] += shift * L
            expect(f"borders {b} of a mesh of size {L}", borders(b), False)
    elif "model" in case:
        for name, sp, ok, how in faults(models()[case["model"]])[case["lo"]:case["hi"]]:
            if isinstance(sp.get("bcs"), list):
                expect(name, build_spec(sp, how), ok)
    elif "values" in case:
        mat = F.Material(1, 1, 0, name="a")
        ns = dict(F=F, mat=mat, trap=F.Trap(1, 1, 1, 1, mat, 1), xdmf=F.XDMFExport("solute"), setattr=setattr,
                  quantity=F.TotalVolume("solute", 1), dq=F.DerivedQuantities([F.TotalVolume("solute", 1)]))
        for e, ok in values()[case["values"][0]:case["values"][1]]:
            expect(e, lambda: eval(e, ns), ok)
    elif "ids" in case:
        # all assignments of four ids to four subdomains of three materials
        for b, c, d in itertools.product(range(1, 5), repeat=3):
            a = case["ids"]
            if a == b:
                continue
            sp = S.base(mats=[S.mat(1, borders=[[0, 0.25], [0.5, 0.6]]), S.mat(2, borders=[0.25, 0.5]), S.mat(3, borders=[0.6, 1.0])])
            sp["mats"][0]["id"], sp["mats"][1]["id"], sp["mats"][2]["id"] = [a, b], c, d
            for o in ((0, 1, 2), (2, 0, 1)):
                expect(f"ids {[a, b]}, {c}, {d} {o}", build_spec(dict(sp, mats=[sp["mats"][i] for i in o]), None), len({a, b, c, d}) == 4)
    elif "pairs" in case:
        kinds = TKINDS if case["on"] == "T" else KINDS
        a, ea = kinds[case["pairs"]]
        if case["on"] == "trap":
            kinds = {"dirichlet": KINDS["dirichlet"], "customdc": KINDS["customdc"]}
        for kb, (b, eb) in kinds.items():
            for sa, sb in SURFS:
                base = S.base()
                names = [(None, None)]
                if case["on"] == "T":
                    base = S.base(T={"transient": True, "init": 300.0}, mats=[S.therm(1)])
                elif case["on"] == "trap":
                    base = S.base(traps=[S.trap(1, [0]), S.trap(2, [0], id=1000)])
                    names = [(i, j) for i in (0, 1, 1000, "1", "1000", "solute") for j in (0, "0", 1, int("1000"), "1", "1000")]
                elif kb in ("dirichlet", "customdc", "flux", "customflux") and case["pairs"] in (
                        "dirichlet", "customdc", "flux", "customflux"):
                    names = [(0, 0), (0, "0"), ("0", 0), ("solute", 0), (0, "solute"), ("0", "solute")]
                for fa, fb in names:
                    x, y = dict(a, surf=sa), dict(b, surf=sb)
                    if fa is not None:
                        x["field"], y["field"] = fa, fb
                    same = True
                    if case["on"] == "trap":
                        same = {"solute": "0"}.get(fa, str(fa)) == {"solute": "0"}.get(fb, str(fb))
                    ok = not ((ea or eb) and set(sa) & set(sb) and same)
                    expect(f"{case['pairs']}{sa}{fa!r}+{kb}{sb}{fb!r}", build_spec(S.merge(base, {"bcs": [x, y]}), None), ok)
    elif "triples" in case:
        a, b = case["triples"]
        for c, ss in itertools.product(KINDS, itertools.product((1, 2), repeat=3)):
            ks = (a, b, c)
            ok = not any(ss[i] == ss[j] and (KINDS[ks[i]][1] or KINDS[ks[j]][1]) for i, j in ((0, 1), (0, 2), (1, 2)))
            expect(f"{ks}{ss}", build_spec(S.merge(S.base(), {"bcs": [dict(KINDS[k][0], surf=[v]) for k, v in zip(ks, ss)]}), None), ok)
    else:
        c, d = case["coord"], case["dim"]

        def go():
            m = {1: lambda: f.IntervalMesh(3, 1.0, 2.0),
                 2: lambda: f.RectangleMesh(f.Point(1, 0), f.Point(2, 1), 2, 2),
                 3: lambda: f.BoxMesh(f.Point(1, 0, 0), f.Point(2, 1, 1), 1, 1, 1)}[d]()
            vm = f.MeshFunction("size_t", m, d, 1)
            sm = f.MeshFunction("size_t", m, d - 1, 1)
            s = F.Simulation(log_level=50)
            s.mesh = F.Mesh(m, vm, sm, type=c)
            s.materials = F.Material(1, 1, 0)
            s.T = 300
            s.settings = F.Settings(1e-10, 1e-10, transient=False)
            s.initialise()

        expect(f"{c} in {d}D", go, d == 1 or c == "cartesian" or (c == "cylindrical" and d == 2))
    return {"violations": bad[:12], "states": n, "transitions": n, "traces": n, "outcome": f"{case['id']}:{n}"}
