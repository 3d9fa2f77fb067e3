"""Hydrogen is conserved: every accepted step (and every steady solution)
satisfies the documented transport equation, in every combination of the
documented features, within the bounds."""

import copy
import itertools

from mc import specs as S

BOUNDS = {
    "quick": "all combinations of {cartesian, cylindrical, spherical} x {1 material, 2, 2 with one of them in two subdomains} x "
    "{0, 1, 2 traps} x {Soret off, on} x {transient, steady} in 1D; plus 2D, 3D and CG/DG traps; "
    "meshes of 7 cells, 3 steps; {1, 2 materials} x {0, 1, 2 traps} x coordinates x {transient, steady} in SI units (lengths 1e-4 m, concentrations 1e20 to 1e25 m-3, times 1e3 s); every 3rd case also in 5 other systems of units; each numeric parameter set to zero",
    "thorough": "as quick, every 1D combination also on two other meshes and with adaptive steps",
}
ASSUMPTIONS = [
    "temperature, sources and fluxes of the enumerated shapes; the residual of the "
    "documented weak form is evaluated by an independent numpy model (relative tolerance 5e-6, 2e-5 in cylindrical and spherical coordinates)",
]


def cases(tier):
    out = []
    for coord, nm, nt, soret, tr in itertools.product(
        ("cartesian", "cylindrical", "spherical"), (1, 2, 3), (0, 1, 2), (0, 1), (1, 0)
    ):
        # nm == 3: two materials, three subdomains, the first and last of which are of the same material
        # borders have to begin at zero: several materials only from r = 0
        sp = {
            "verts": S.V if coord == "cartesian" else S.VR,
            "coord": coord,
            "T": "300+40*x+25*t" if tr else "300+40*x",
        }
        if nm >= 2 and coord != "cartesian":
            sp["verts"] = [0.0, 0.5, 1.0, 1.2, 1.4, 1.5, 1.7, 2.0]
        L = max(sp["verts"])
        mid = 0.5 if coord == "cartesian" else 1.5
        m = [S.mat(1), S.mat(2)][:nm]
        if nm == 2:
            m[0]["borders"], m[1]["borders"] = [0, mid], [mid, L]
        elif nm == 3:
            a = 0.25 if coord == "cartesian" else 1.0
            m[0].update(id=[1, 3], borders=[[0, a], [mid, L]])
            m[1]["borders"] = [a, mid]
        if soret:
            for i, q in enumerate(m):
                q["Q"] = ["0.12+0.0001*T", "-0.2"][i]
        sp["mats"] = m
        sp["traps"] = [S.trap(1, [0]), S.trap(2, list(range(len(m))))][:nt]
        sp["settings"] = {"soret": bool(soret), "transient": bool(tr)}
        if nm >= 2:
            sp["settings"]["traps_element_type"] = "DG"
        tt = "*(1+t)" if tr else ""
        sp["bcs"] = [
            {"type": "dirichlet", "value": "1.0+0.5*t" if tr else 1.0, "surf": [2]},
            {"type": "mass", "h": 0.6, "c_ext": 0.3, "surf": [1]},
        ]
        sp["srcs"] = [{"type": "source", "value": "2.0*x" + tt, "field": 0, "vol": [nm, 1] if nm == 3 else [nm]}]
        if tr:
            sp["ics"] = [{"field": 0, "value": "1.0+x"}]
            if nt:
                sp["ics"].append({"field": 1, "value": "0.5*x"})
            sp["final"], sp["dt"] = 0.5, {"initial_value": 0.2}
        out.append({"id": f"{coord}-m{nm}-t{nt}-s{soret}-{'tr' if tr else 'st'}", "spec": sp,
                    "cost": 1 + nt + soret})
    if tier == "thorough":
        for c in list(out):
            for k, verts in enumerate(([0, 0.05, 0.25, 0.3, 0.5, 0.9, 1.0], [0, 0.125, 0.25, 0.5, 1.0])):
                sp = dict(c["spec"])
                if sp["coord"] == "cartesian":
                    sp["verts"] = verts
                elif min(sp["verts"]) == 0:
                    sp["verts"] = [0.0, 1.0, 1.5, 2.0] if k else [0.0, 0.3, 0.7, 1.0, 1.25, 1.5, 1.6, 1.9, 2.0]
                else:
                    sp["verts"] = [1.0 + v for v in verts]
                if "dt" in sp:
                    sp["dt"] = {"initial_value": 0.05, "stepsize_change_ratio": 1.6, "dt_min": 1e-4}
                out.append(dict(c, id=c["id"] + f"-mesh{k}", spec=sp))
    out += S.in_units(out, False, 1 if tier == "thorough" else 3)
    for n in ("plain", "soret", "chempot", "traps"):
        for k, sp in S.zeros(S.features()[n]):
            if k.startswith(("mats", "ics")):
                out.append({"id": f"zero-{n}-{k}", "spec": sp, "cost": 2, "group": f"zero{n}"})
    out += si(tier)
    # fluxes of every kind together, CG and DG traps
    for el in ("CG", "DG"):
        sp = {
            "verts": S.V, "mats": [S.mat(1)], "T": "300+25*t", "settings": {"traps_element_type": el},
            "traps": [S.trap(1, [0]), S.trap(3, [0])],
            "bcs": [
                {"type": "recomb", "Kr": 0.7, "E": 0.01, "order": 2, "surf": [1]},
                {"type": "dissoc", "Kd": 0.9, "E": 0.02, "P": 2.0, "surf": [1, 2]},
                {"type": "flux", "value": 0.3, "surf": [2]},
                {"type": "customflux", "fun": "-p*c", "prm": "0.5+t", "surf": [2]},
            ],
            "srcs": [{"type": "decay", "lam": 0.4, "field": "all", "vol": [1]}],
            "ics": [{"field": 0, "value": 1.0}, {"field": 2, "value": 0.2}],
            "final": 0.5, "dt": {"initial_value": 0.2},
        }
        out.append({"id": f"fluxes-{el}", "spec": sp, "cost": 5})
    for coord, nm, soret in itertools.product(("cartesian", "cylindrical"), (1, 2), (0, 1)):
        m = [S.mat(1), S.mat(2)][:nm]
        if soret:
            for i, q in enumerate(m):
                q["Q"] = ["0.12+0.0001*T", "-0.2"][i]
        sp = {
            "rect": [4, 2], "x0": 0.0 if coord == "cartesian" else 1.0, "coord": coord, "mats": m,
            "T": "300+40*x+25*t+10*y", "settings": {"soret": bool(soret), "traps_element_type": "DG"},
            "traps": [S.trap(1, [nm - 1])],
            "bcs": [
                {"type": "dirichlet", "value": "1.0+0.5*t+y", "surf": [2]},
                {"type": "mass", "h": 0.6, "c_ext": 0.3, "surf": [1, 4]},
                {"type": "flux", "value": "0.2*x", "surf": [3]},
            ],
            "srcs": [{"type": "source", "value": "2.0*x*(1+t)", "field": 0, "vol": [nm]}],
            "ics": [{"field": 0, "value": "1.0+x"}],
            "final": 0.4, "dt": {"initial_value": 0.2},
        }
        out.append({"id": f"2d-{coord}-m{nm}-s{soret}", "spec": sp, "cost": 5})
        if coord == "cartesian" and (nm == 2 or tier == "thorough"):
            q = copy.deepcopy(sp)
            q.update(rect=[2, 1, 1], T="300+40*x+25*t+10*y+15*z")
            q["bcs"][0].update(value="1.0+0.5*t+y+0.3*z")
            q["bcs"][1]["surf"] = [1, 4, 6]
            q["bcs"][2].update(value="0.2*x+0.1*z", surf=[3, 5])
            q["srcs"][0]["value"] = "2.0*x*(1+t)+z"
            out.append({"id": f"3d-m{nm}-s{soret}", "spec": q, "cost": 12})
    return out


def si(tier):
    """the same equations in units of a real problem"""
    out = []
    L = 1e-4
    for coord, nm, nt, tr in itertools.product(("cartesian", "cylindrical", "spherical"), (1, 2), (0, 1, 2), (1, 0)):
        far = 0.0 if coord == "cartesian" else L
        m = [{"id": 1, "D": [4.1e-7, 0.39]}, {"id": 2, "D": [6.6e-7, 0.387]}][:nm]
        v = [far + L * a for a in S.V]
        if nm == 2:
            v = sorted(set([0.0] + v))
            mid, end = [a for a in v if abs(a - far - 0.5 * L) < 1e-9][0], v[-1]
            m[0]["borders"], m[1]["borders"] = [0, mid], [mid, end]
        traps = [dict(k=4.1e-7 / (1.1e-10**2 * 6 * 6.3e28), E_k=0.39, p=1e13, E_p=0.87, dens="1.3e25*(1+2e3*x)", mats=[0]),
                 dict(k=8.96e-17, E_k=0.39, p=1e13, E_p=1.0, dens="4e24", mats=list(range(nm)))][:nt]
        sp = {"verts": v, "coord": coord, "mats": m, "traps": traps, "T": "500+4e5*x+0.05*t" if tr else "500+4e5*x",
              "settings": {"transient": bool(tr), "traps_element_type": "DG", "absolute_tolerance": 1e4, "relative_tolerance": 1e-11 if tr else 1e-12},
              "bcs": [{"type": "dirichlet", "value": "1e20*(1+1e-3*t)" if tr else 1e20, "surf": [2]}, {"type": "recomb", "Kr": 1e-18, "E": 0.3, "order": 2, "surf": [1]}],
              "srcs": [{"type": "source", "value": "2e22*x" + ("*(1+1e-3*t)" if tr else ""), "field": 0, "vol": [nm]}]}
        if tr:
            sp.update(final=2e3, dt={"initial_value": 500.0}, ics=[{"field": 0, "value": "1e19*(1+1e4*x)"}])
            if nt:
                sp["ics"].append({"field": 1, "value": "3e24"})
        out.append({"id": f"si-{coord}-m{nm}-t{nt}-{'tr' if tr else 'st'}", "spec": sp, "cost": 2 + nt, "group": f"si{coord}"})
    return out


def run(case):
    from mc.explore import run_model

    return run_model(case)
