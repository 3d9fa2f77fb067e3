"""Building blocks of the specifications (plain data, no festim)."""

import copy
import itertools

V = [0.0, 0.1, 0.25, 0.4, 0.5, 0.6, 0.8, 1.0]
VR = [1.0 + v for v in V]


def mat(i, **k):
    """materials with different properties; i = 1, 2, 3"""
    D = {1: [1.1, 0.02], 2: [0.7, 0.03], 3: [1.6, 0.01]}[i]
    m = {"id": i, "D": D}
    m.update(k)
    return m


def therm(i, **k):
    kt = {1: "1.0+0.001*T", 2: "2.0+0.001*T", 3: "0.5+0.002*T"}[i]
    cp = {1: "2.0", 2: "1.0+0.001*T", 3: "1.5"}[i]
    rho = {1: "1.0+0.0005*T", 2: "1.2", 3: "0.8"}[i]
    return mat(i, k_th=kt, cp=cp, rho=rho, **k)


def trap(n, mats, **k):
    base = {
        1: dict(k=1.3, E_k=0.01, p=0.7, E_p=0.02, dens="1.0+x"),
        2: dict(k=0.8, E_k=0.02, p=0.4, E_p=0.01, dens="0.6"),
        3: dict(k=0.5, E_k=0.015, p=0.9, E_p=0.012, dens="0.9"),
    }[n]
    d = dict(base, mats=mats)
    d.update(k)
    return d


SOL = {1: [2.0, 0.01], 2: [3.0, 0.02], 3: [1.5, 0.015]}


def merge(a, b):
    c = copy.deepcopy(a)
    for k, v in b.items():
        if k in ("bcs", "srcs", "ics", "traps") and k in c:
            c[k] = c[k] + copy.deepcopy(v)
        elif k in ("settings", "dt") and k in c:
            c[k].update(v)
        else:
            c[k] = copy.deepcopy(v)
    return c


def words(alphabet, n):
    return ["".join(w) for w in itertools.product(alphabet, repeat=n)]


def base(**k):
    """one material, mobile hydrogen only, constant temperature"""
    b = {"verts": V, "mats": [mat(1)], "T": 320.0, "final": 1.0, "dt": {"initial_value": 0.3}}
    return merge(b, k)


ADAPT = {"initial_value": 0.3, "stepsize_change_ratio": 2.0, "dt_min": 1e-4}

EXTRINSIC = {"phi_0": "1.0+t", "n_amax": 3.0, "n_bmax": 2.0, "eta_a": 0.5, "eta_b": 0.7,
             "f_a": "1.0+x", "f_b": 1.0}
NEUTRON = {"phi": "1.0+t", "K": 1.2, "n_max": 4.0, "A_0": 0.5, "E_A": 0.01}
KIN = {"type": "kinetics", "k_sb": "1.2*p", "k_bs": 0.6, "lam": 0.2, "n_surf": 3.0, "n_IS": 5.0,
       "J_vs": "0.4+0.1*p-0.2*cs", "prm": "1.0+t", "surf": [1, 2], "init": 0.5}


def features():
    """one model per part of the documented physics, all transient"""
    d = {}
    left = {"type": "dirichlet", "value": "1.0+t", "surf": [1]}
    ic = [{"field": 0, "value": "1.0+x"}]
    d["plain"] = base(bcs=[left], ics=ic, T="300+20*x+30*t")
    d["traps"] = base(
        T="300+30*t", traps=[trap(1, [0]), trap(2, [0], dens="0.6+t")], bcs=[left],
        ics=ic + [{"field": 1, "value": "0.5*x"}],
        srcs=[{"type": "source", "value": "0.3*(1+t)", "field": "1", "vol": [1]}],
    )
    d["fluxes"] = base(
        T="300+30*t", ics=ic,
        bcs=[
            {"type": "recomb", "Kr": "0.7+t", "E": 0.01, "order": 2, "surf": [1]},
            {"type": "dissoc", "Kd": 0.9, "E": 0.02, "P": "2.0+t", "surf": [2]},
            {"type": "customflux", "fun": "-p*c", "prm": "0.5+t", "surf": [2]},
        ],
    )
    d["chempot"] = base(
        T="300+20*x+30*t", ics=ic, mats=[mat(1, S=SOL[1], borders=[0, 0.5]), mat(2, S=SOL[2], borders=[0.5, 1.0])],
        traps=[trap(1, [0, 1])], settings={"chemical_pot": True, "traps_element_type": "DG"}, bcs=[left],
    )
    d["kinetics"] = base(T="300+30*t", ics=ic, bcs=[KIN])
    d["soret"] = base(
        T="300+20*x+30*t", mats=[mat(1, Q="0.12+0.0001*T")], settings={"soret": True}, ics=ic, bcs=[left])
    d["heat"] = base(
        T={"transient": True, "init": "300+20*x"}, mats=[therm(1)], ics=ic, traps=[trap(1, [0])],
        bcs=[left, {"type": "convective", "h": 0.8, "T_ext": "320+10*t", "surf": [2]},
             {"type": "dirichlet", "field": "T", "value": "300+50*t", "surf": [1]}],
        srcs=[{"type": "source", "value": "100*(1+t)", "field": "T", "vol": [1]}],
    )
    d["steadyheat"] = base(
        T={"transient": False}, mats=[therm(1)], ics=ic,
        bcs=[left, {"type": "dirichlet", "field": "T", "value": 300.0, "surf": [1]},
             {"type": "flux", "field": "T", "value": 20.0, "surf": [2]}],
    )
    d["extrinsic"] = base(
        T="300+30*t", ics=ic, bcs=[left],
        traps=[dict(trap(1, [0]), kind="extrinsic", prm=EXTRINSIC),
               dict(trap(2, [0]), kind="neutron", prm=NEUTRON)],
    )
    d["cyl"] = base(
        verts=VR, coord="cylindrical", T="300+20*x+30*t", traps=[trap(1, [0])], ics=ic,
        bcs=[left, {"type": "mass", "h": 0.6, "c_ext": "0.3+t", "surf": [2]}],
        srcs=[{"type": "source", "value": "0.3*(1+t)", "field": 0, "vol": [1]}],
    )
    return d


# (with a Dirichlet condition the initial residual is of order one: much smaller fluxes than
# these would be below what the relative tolerance of the solver resolves)
UNITS = ((1e-9, 1e-6), (1.0, 1e-8), (1e3, 3e7), (1e-6, 1e-3), (1e-3, 1e2))


def in_units(cases, big, every=1):
    """the cases (one-dimensional ones, transient ones) in other units"""
    out = []
    for n, c in enumerate(cases):
        sp = c.get("spec")
        if not sp or "verts" not in sp or (n % every and not big):
            continue
        for k in range(len(UNITS)) if big else (n // every % len(UNITS),):
            L, tau = UNITS[k]
            out.append(dict(c, id=f"{c['id']}-unit{k}", spec=rescaled(sp, L, tau), group=f"{c.get('group', c['id'])}-unit{k}"))
    return out


def many(ids=None, el="CG", n=12):
    """twelve traps of different parameters (two-digit numbers begin like one-digit ones)"""
    ids = ids or [None] * n
    f = [i or k + 1 for k, i in enumerate(ids)]
    traps = [dict(k=1.0 + 0.1 * i, E_k=0.01 + 0.001 * i, p=0.5 + 0.05 * i, E_p=0.02 - 0.001 * i, dens=0.3 + 0.02 * i, mats=[0], id=d)
             for i, d in enumerate(ids)]
    sp = base(T="300+30*t", traps=traps, final=0.4, dt={"initial_value": 0.2}, settings={"traps_element_type": el},
              bcs=[{"type": "dirichlet", "value": "1.0+t", "surf": [1]}])
    sp["ics"] = [{"field": 0, "value": 1.0}] + [{"field": str(i) if k % 2 else i, "value": f"{0.02 * (k + 1)}+0.1*x"} for k, i in enumerate(f) if k != 4]
    sp["srcs"] = [{"type": "source", "value": f"{0.1 * (k + 1)}*(1+t)", "field": str(f[k]) if k % 2 else f[k], "vol": [1]} for k in (0, 1, 9, 10, 11)]
    if el == "CG":
        sp["bcs"] += [{"type": "dirichlet", "value": 0.15, "field": f[11], "surf": [2]}, {"type": "dirichlet", "value": 0.25, "field": str(f[9]), "surf": [2]},
                      {"type": "dirichlet", "value": 0.35, "field": f[0], "surf": [2]}]
    return sp


NUMERIC = {
    "mats": ("D1", "Q", "S1"),
    "traps": ("E_k", "p", "E_p", "dens", "k"),
    "bcs": ("value", "P", "Kr", "Kd", "E", "h", "c_ext", "prm", "prm2", "phi", "S1", "H1", "D1", "Kr1", "Kd1", "init", "k_bs", "n_surf0"),
    "srcs": ("value", "lam", "flux"),
    "ics": ("value",),
}


def zeros(sp):
    """the model with one of its numbers replaced by zero, for each of them"""
    out = []
    for part, keys in NUMERIC.items():
        for i, d in enumerate(sp.get(part, [])):
            for key in keys:
                if key in d and d.get("field") != "T":
                    q = copy.deepcopy(sp)
                    q[part][i][key] = [0] * len(d[key]) if isinstance(d[key], list) and key not in ("Kr", "Kd") else 0
                    if isinstance(d[key], list) and key in ("Kr", "Kd"):
                        continue
                    out.append((f"{part}{i}-{key}", q))
                elif key[-1] == "1" and key[:-1] in d and isinstance(d[key[:-1]], list):
                    q = copy.deepcopy(sp)
                    q[part][i][key[:-1]][1] = 0
                    out.append((f"{part}{i}-{key}", q))
            for key in d.get("prm", {}) if isinstance(d.get("prm"), dict) else ():
                if key not in ("n_amax", "n_bmax", "n_max"):
                    q = copy.deepcopy(sp)
                    q[part][i]["prm"][key] = 0
                    out.append((f"{part}{i}-prm-{key}", q))
    return out


def rescaled(sp, L, tau=1.0):
    """the same (one-dimensional) model in other units (L, tau: the old units of
    length and time in the new ones); the fields are the same functions of x/L and t/tau"""
    import re

    sp = copy.deepcopy(sp)
    J = L / tau

    def ex(e):
        if not isinstance(e, str):
            return e
        e = re.sub(r"\bx\b", f"(x/{L!r})", e) if L != 1 else e
        return re.sub(r"\bt\b", f"(t/{tau!r})", e) if tau != 1 else e

    def by(e, f, sub=ex):
        return f"({f!r})*({sub(e)})" if isinstance(e, str) else e * f

    def put(d, f, *keys):
        for k in keys:
            if k in d:
                d[k] = by(d[k], f)

    sp["verts"] = [v * L for v in sp["verts"]]
    for m in sp["mats"]:
        m["D"] = [m["D"][0] * L**2 / tau, m["D"][1]]
        put(m, L**2 / tau, "k_th")
        b = m.get("borders")
        if b:
            m["borders"] = [[a * L for a in p] for p in b] if isinstance(b[0], list) else [a * L for a in b]
    for t in sp.get("traps", []):
        for k in ("k", "p"):
            t[k] = [a / tau for a in t[k]] if isinstance(t[k], list) else t[k] / tau
        if "dens" in t:
            t["dens"] = [ex(d) for d in t["dens"]] if isinstance(t["dens"], list) else ex(t["dens"])
        if "prm" in t:
            t["prm"] = {k: by(v, 1 / tau) if k in ("phi_0", "phi", "A_0") else ex(v) for k, v in t["prm"].items()}
            t["atol"] = 1e-12 * J
    for b in sp.get("bcs", []) + sp.get("srcs", []):
        k = b["type"]
        if k in ("mass", "convective"):
            put(b, J, "h")
        elif k == "flux":
            put(b, J, "value")
        elif k == "recomb":
            put(b, J, "Kr")
        elif k == "dissoc":
            put(b, J, "Kd")
        elif k == "customflux":
            b["fun"] = f"({J!r})*({b['fun']})"
        elif k == "implantdc":
            put(b, J, "phi")
            put(b, L, "Rp")
            b["D"] = [b["D"][0] * L**2 / tau, b["D"][1]]
            for q in ("Kr", "Kd"):
                if q in b:
                    b[q] = [b[q][0] * J, b[q][1]]
        elif k == "kinetics":
            cs = lambda e: re.sub(r"\bcs\b", f"(cs/{L!r})", e)
            for q, f_ in (("k_sb", 1 / tau), ("k_bs", 1 / tau), ("J_vs", J)):
                b[q] = by(b[q], f_, cs)
            for q in ("lam", "n_surf", "init"):
                if q in b:
                    b[q] = b[q] * L
        elif k == "source":
            put(b, 1 / tau, "value")
        elif k == "decay":
            b["lam"] = b["lam"] / tau
        elif k == "implant":
            put(b, J, "flux")
            put(b, L, "depth", "width")
        for q in ("value", "c_ext", "T_ext", "P", "prm", "prm2", "E") if k not in ("flux", "source") else ():
            if q in b:
                b[q] = ex(b[q])
    for b in sp.get("ics", []):
        b["value"] = ex(b["value"])
    if isinstance(sp["T"], dict):
        sp["T"]["atol"] = 1e-9 * J
        if "init" in sp["T"]:
            sp["T"]["init"] = ex(sp["T"]["init"])
    else:
        sp["T"] = ex(sp["T"])
    if "final" in sp:
        sp["final"] *= tau
    if "dt" in sp:
        d = sp["dt"]
        for k in ("initial_value", "dt_min", "max_stepsize", "stepsize_stop_max", "t_stop"):
            if d.get(k) is not None:
                d[k] = by(d[k], tau)
        if d.get("milestones"):
            d["milestones"] = [a * tau for a in d["milestones"]]
    sp.setdefault("settings", {})["absolute_tolerance"] = 1e-11 * J
    sp["L"], sp["tau"] = L, tau
    return sp
