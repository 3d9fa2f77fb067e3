"""From a specification (plain data) to a festim model and its reference model.

Only the documented interface of festim is used to build, run and observe."""

import numpy as np
import sympy as sp
import fenics as f
import festim as F

from mc.refmodel import Grid, RefModel, val

_SYM = {"x": F.x, "y": F.y, "z": F.z, "t": F.t, "exp": sp.exp, "sqrt": sp.sqrt, "sin": sp.sin,
        "cos": sp.cos, "pi": sp.pi}


def sym(e):
    """expression of the spec -> what a user writes (sympy or number)"""
    if isinstance(e, str):
        return eval(e, {"__builtins__": {}}, dict(_SYM))
    return e


def prop(e):
    """material property: number, or function of the temperature"""
    if isinstance(e, str) and "T" in e:
        return lambda T: eval(e, {"__builtins__": {}}, {"T": T, "exp": f.exp})
    return float(e) if isinstance(e, str) else e


def fun(e, *names):
    def g(*a, **k):
        ns = dict(zip(names, a))
        ns.update(k)
        ns["exp"] = f.exp
        return eval(e, {"__builtins__": {}}, ns)

    return g


def one(v):
    return v[0] if len(v) == 1 else list(v)


def prms(b):
    return {n: sym(b[k]) for n, k in (("p", "prm"), ("q", "prm2")) if k in b}


def make_bc(b):
    k, s = b["type"], one(b["surf"])
    if k == "dirichlet":
        return F.DirichletBC(s, sym(b["value"]), b.get("field", 0))
    if k == "sieverts":
        return F.SievertsBC(s, *b["S"], sym(b["P"]))
    if k == "henrys":
        return F.HenrysBC(s, *b["H"], sym(b["P"]))
    if k == "implantdc":
        kw = {}
        if "Kr" in b:
            kw.update(Kr_0=b["Kr"][0], E_Kr=b["Kr"][1])
        if "Kd" in b:
            kw.update(Kd_0=b["Kd"][0], E_Kd=b["Kd"][1], P=sym(b["P"]))
        return F.ImplantationDirichlet(
            s, phi=sym(b["phi"]), R_p=sym(b["Rp"]), D_0=b["D"][0], E_D=b["D"][1], **kw
        )
    if k == "customdc":
        return F.CustomDirichlet(
            s, function=fun(b["fun"], "T"), field=b.get("field", 0), **prms(b)
        )
    if k == "flux":
        return F.FluxBC(s, sym(b["value"]), field=b.get("field", 0))
    if k == "recomb":
        return F.RecombinationFlux(sym(b["Kr"]), sym(b["E"]), b["order"], s)
    if k == "dissoc":
        return F.DissociationFlux(sym(b["Kd"]), sym(b["E"]), sym(b["P"]), s)
    if k == "mass":
        return F.MassFlux(sym(b["h"]), sym(b["c_ext"]), s)
    if k == "convective":
        return F.ConvectiveFlux(sym(b["h"]), sym(b["T_ext"]), s)
    if k == "customflux":
        return F.CustomFlux(
            s, function=fun(b["fun"], "T", "c"), field=b.get("field", 0), **prms(b)
        )
    if k == "kinetics":

        def kf(e):
            return fun(e, "T", "cs", "c") if isinstance(e, str) else e

        return F.SurfaceKinetics(
            k_sb=kf(b["k_sb"]), k_bs=kf(b["k_bs"]), lambda_IS=b["lam"],
            n_surf=b["n_surf"], n_IS=b["n_IS"], J_vs=kf(b["J_vs"]), surfaces=s,
            initial_condition=b.get("init", 0), **prms(b),
        )
    raise ValueError(k)


def given(value, how, mesh=None):
    """the value as a fenics object of the kind how"""
    v = sym(value)
    if how == "expression":
        return f.Expression(sp.printing.ccode(v), t=0, degree=2)
    if how == "user":

        class User(f.UserExpression):
            def __init__(self, e):
                super().__init__(degree=2)
                self.e, self.t = compile(e, "spec", "eval"), 0

            def eval(self, value, x):
                value[0] = eval(self.e, {"__builtins__": {}}, {"x": x[0], "t": self.t})

            def value_shape(self):
                return ()

        return User(str(value))
    if how == "function":
        return f.interpolate(f.Expression(sp.printing.ccode(v), t=0, degree=1), f.FunctionSpace(mesh, "CG", 1))
    return v


def make_src(s, mesh=None):
    vol = one(s["vol"])
    if s["type"] == "decay":
        return F.RadioactiveDecay(s["lam"], vol, field=s["field"])
    if s["type"] == "implant":
        return F.ImplantationFlux(sym(s["flux"]), sym(s["depth"]), sym(s["width"]), vol)
    v = given(s["value"], s.get("as"), mesh)
    return F.Source(v, vol, s["field"])


# (names that contain each other or differ by their case only)
NAMES = ["W 2 alloy", "W", "W 2", "w", "w 2", "W 2 "]


def make_materials(spec):
    out = []
    for i, m in enumerate(spec["mats"]):
        kw = {}
        if "S" in m:
            kw.update(S_0=m["S"][0], E_S=m["S"][1])
        if "law" in m:
            kw.update(solubility_law=m["law"])
        for a, b in (("Q", "Q"), ("k_th", "thermal_cond"), ("cp", "heat_capacity"), ("rho", "rho")):
            if a in m:
                kw[b] = prop(m[a])
        if m.get("borders") is not None:
            kw["borders"] = m["borders"]
        name = spec["names"][i] if "names" in spec else NAMES[i] if i < len(NAMES) else f"W {i}"
        out.append(F.Material(m["id"], m["D"][0], m["D"][1], name=name, **kw))
    return out


def make_trap(tr, mats):
    ms = [mats[i] for i in tr["mats"]]
    if tr.get("by_name"):
        ms = [m.name for m in ms]
    dens = tr.get("dens")
    kw = {"id": tr["id"]} if tr.get("id") is not None else {}
    kind = tr.get("kind", "trap")
    if kind == "extrinsic":
        p = {k: given(v, tr.get("as") if isinstance(v, str) else None) for k, v in tr["prm"].items()}
        return F.ExtrinsicTrap(tr["k"], tr["E_k"], tr["p"], tr["E_p"], one(ms), **p,
                               absolute_tolerance=tr.get("atol", 1e-12), relative_tolerance=1e-12, **kw)
    if kind == "neutron":
        p = {k: given(v, tr.get("as") if isinstance(v, str) else None) for k, v in tr["prm"].items()}
        return F.NeutronInducedTrap(tr["k"], tr["E_k"], tr["p"], tr["E_p"], one(ms), **p,
                                    absolute_tolerance=tr.get("atol", 1e-12), relative_tolerance=1e-12, **kw)
    how = tr.get("as")
    d = [given(v, how) for v in dens] if isinstance(dens, list) else given(dens, how)
    return F.Trap(tr["k"], tr["E_k"], tr["p"], tr["E_p"], one(ms), d, **kw)


# -- two-dimensional meshes -------------------------------------------------
def mesh2d(spec):
    """rectangle [x0,x0+1]x[0,1] (or box); surfaces 1: left, 2: right, 3: bottom, 4: top
    (5: front, 6: back); volume 1: x below the middle, volume 2: above"""
    x0 = spec.get("x0", 0.0)
    d = len(spec["rect"])
    if d == 2:
        mesh = f.RectangleMesh(f.Point(x0, 0.0), f.Point(x0 + 1.0, 1.0), *spec["rect"])
    else:
        mesh = f.BoxMesh(f.Point(x0, 0.0, 0.0), f.Point(x0 + 1.0, 1.0, 0.8), *spec["rect"])
    vm = f.MeshFunction("size_t", mesh, d, 1)
    for c in f.cells(mesh):
        if c.midpoint().x() > x0 + 0.5 and len(spec["mats"]) > 1 or (
            c.midpoint().x() > x0 + 0.5 and spec.get("split")
        ):
            vm[c] = 2
    sm = f.MeshFunction("size_t", mesh, d - 1, 0)
    mesh.init(d - 1, d)
    for fc in f.facets(mesh):
        if fc.exterior():
            p = fc.midpoint()
            if f.near(p.x(), x0):
                sm[fc] = 1
            elif f.near(p.x(), x0 + 1.0):
                sm[fc] = 2
            elif f.near(p.y(), 0.0):
                sm[fc] = 3
            elif d == 2 or f.near(p.y(), 1.0):
                sm[fc] = 4
            else:
                sm[fc] = 5 if p.z() < 0.4 else 6
    return mesh, vm, sm


def grid_of(spec, mesh, vm=None, sm=None):
    """reference grid: the geometry of the mesh with the markers that the
    *specification* implies (not the ones festim computed)"""
    x, cells = mesh.coordinates(), mesh.cells()
    coord = spec.get("coord", "cartesian")
    if mesh.geometry().dim() == 1:
        lay = layout(spec)
        mark = []
        for c in cells:
            mid = 0.5 * (x[c[0], 0] + x[c[1], 0])
            ids = [i for (a, b, i) in lay if a <= mid <= b]
            mark.append(ids[0] if ids else 0)
        v0, v1 = int(np.argmin(x[:, 0])), int(np.argmax(x[:, 0]))
        fac = []
        for mk, v in ((1, v0), (2, v1)):
            c = [i for i, vs in enumerate(cells) if v in vs][0]
            fac.append((mk, (v,), c))
        return Grid(x, cells, mark, fac, coord)
    fac = []
    for fc in f.facets(mesh):
        if fc.exterior():
            vs = tuple(int(v.index()) for v in f.vertices(fc))
            c = [int(c.index()) for c in f.cells(fc)][0]
            fac.append((int(sm[fc]), vs, c))
    return Grid(x, cells, vm.array().astype(int), fac, coord)


def layout(spec):
    """(a, b, id) of every subdomain of a one-dimensional spec"""
    out = []
    lo, hi = min(spec["verts"]), max(spec["verts"])
    for m in spec["mats"]:
        b = m.get("borders")
        ids = m["id"]
        if b is None:
            b = [[lo, hi]]
        elif not isinstance(b[0], list):
            b = [b]
        ids = ids if isinstance(ids, list) else [ids] * len(b)
        for (a, c), i in zip(b, ids):
            out.append((a, c, i))
    return out


class Snapshot(F.DerivedQuantity):
    """derived quantity that keeps the field itself"""

    def __init__(self, field, owner):
        super().__init__(field)
        self.owner = owner

    @property
    def title(self):
        return f"snapshot {self.field}"

    def compute(self):
        self.owner.take(self.field, self.function)
        return 0.0


class Run:
    """a model built from a spec, with the observed trajectory"""

    def __init__(self, spec, extra_exports=(), observe=True):
        self.sp = spec
        self.rows = []
        self._row = {}
        mats = make_materials(spec)
        self.mats = mats
        sm = F.Simulation(log_level=50)
        if "rect" in spec:
            me, vm, sf = mesh2d(spec)
            sm.mesh = F.Mesh(me, vm, sf, type=spec.get("coord", "cartesian"))
            self.grid = grid_of(spec, me, vm, sf)
        else:
            sm.mesh = F.MeshFromVertices(spec["verts"], type=spec.get("coord", "cartesian"))
            self.grid = grid_of(spec, sm.mesh.mesh)
        sm.materials = mats if len(mats) > 1 else mats[0]
        self.traps = [make_trap(t, mats) for t in spec.get("traps", [])]
        sm.traps = self.traps
        sm.boundary_conditions = [make_bc(b) for b in spec.get("bcs", [])]
        sm.sources = [make_src(s, sm.mesh.mesh) for s in spec.get("srcs", [])]
        sm.initial_conditions = [
            F.InitialCondition(field=i["field"], value=sym(i["value"]))
            for i in spec.get("ics", []) if i["field"] != "T"
        ]
        T = spec["T"]
        if isinstance(T, dict):
            kw = {}
            if "init" in T:
                kw["initial_condition"] = sym(T["init"])
            sm.T = F.HeatTransferProblem(
                transient=T["transient"], absolute_tolerance=T.get("atol", 1e-9),
                relative_tolerance=T.get("rtol", 1e-12), **kw
            )
        else:
            sm.T = F.Temperature(sym(T))
        st = dict(spec.get("settings", {}))
        tr = st.setdefault("transient", True)
        if tr:
            st["final_time"] = spec["final"]
            d = dict(spec.get("dt", {"initial_value": spec["final"] / 2}))
            if isinstance(d.get("max_stepsize"), str):
                e = d["max_stepsize"]
                d["max_stepsize"] = lambda t, e=e: eval(e, {"t": t})
            sm.dt = F.Stepsize(**d)
        st.setdefault("absolute_tolerance", 1e-11)
        st.setdefault("relative_tolerance", 1e-12)
        st.setdefault("maximum_iterations", 40)
        sm.settings = F.Settings(**st)
        self.sim = sm
        self.ref = RefModel(spec, self.grid)
        self.kin = [s for b in spec.get("bcs", []) if b["type"] == "kinetics" for s in b["surf"]]
        if observe:
            q = [F.AdsorbedHydrogen(s) for s in self.kin]
            ids = spec.get("obs_ids") or self.ref.trap_ids()
            q += [Snapshot(str(i), self) for i in ids]
            q += [Snapshot("T", self), Snapshot("solute", self)]
            self.dq = F.DerivedQuantities(q)
            sm.exports = [self.dq] + list(extra_exports)
        else:
            sm.exports = list(extra_exports)

    def initialise(self):
        self.sim.initialise()
        self._dg = f.FunctionSpace(self.sim.mesh.mesh, "DG", 1)
        dm = self._dg.dofmap()
        self._cd = np.array([dm.cell_dofs(i) for i in range(self.sim.mesh.mesh.num_cells())])
        self.rows = []
        self._row = {}

    def vals(self, fn):
        """per-cell vertex values of a piecewise linear function"""
        g = f.interpolate(fn, self._dg) if hasattr(fn, "function_space") else f.project(fn, self._dg)
        return g.vector().get_local()[self._cd]

    def take(self, field, fn):
        self._row[str(field)] = self.vals(fn)
        if str(field) == "solute":
            r = self._row
            ids = self.sp.get("obs_ids") or self.ref.trap_ids()
            u = self.sim.h_transport_problem.u
            w = u if u.function_space().num_sub_spaces() == 0 else u.split(deepcopy=True)[0]
            row = {
                "t": float(self.sim.t),
                "c": r["solute"],
                "w": self.vals(w),
                "T": r["T"],
                "traps": [r[str(i)] for i in ids],
                "dens": [
                    self.vals(tr.density[0]) if "prm" in ts else None
                    for tr, ts in zip(self.traps, self.sp.get("traps", []))
                ],
            }
            self.rows.append(row)
            self._row = {}

    def run(self):
        self.sim.run()
        for q in getattr(self, "dq", []):
            if isinstance(q, F.AdsorbedHydrogen):
                for row, v in zip(self.rows, q.data):
                    row.setdefault("cs", {})[q.surface] = v
        return self

    # -- reference trajectory -------------------------------------------
    def initial_row(self):
        g = self.grid
        T = self.sp["T"]
        xv = g.x[g.cells]
        if isinstance(T, dict):
            if T["transient"]:
                T0 = np.array(val(T["init"], xv, 0.0))
            else:
                T0 = self.rows[0]["T"]
        else:
            T0 = np.array(val(T, xv, 0.0))
        w, traps = self.ref.initial(T0)
        return {
            "t": 0.0, "w": w, "T": T0, "traps": traps,
            "dens": [np.zeros(g.cells.shape) if "prm" in ts else None
                     for ts in self.sp.get("traps", [])],
            "cs": {s: b.get("init", 0) for b in self.sp.get("bcs", [])
                   if b["type"] == "kinetics" for s in b["surf"]},
        }


def axis_nodes(g):
    """nodes on the axis r = 0, where the documented form has a singular
    integrand and its value depends on the quadrature rule"""
    if g.coord == "cartesian":
        return []
    return [i for i in range(len(g.x)) if abs(g.x[i][0]) < 1e-14 * np.abs(g.x).max()]


def check_step(ref, now, prev, t, dt, heat=False, tol=2e-5, what=""):
    """all documented equations over one accepted step; list of errors"""
    bad, worst = [], 0.0

    def add(name, e, lim=tol):
        nonlocal worst
        worst = max(worst, e if e < lim else 0.0)
        if not e <= lim:
            bad.append(f"{what}{name}: discrepancy {e:.3e} at t={t:.6g} dt={dt}")

    spt = ref.sp.get("traps", [])
    nw = dict(now)
    # extrinsic densities: the density known at the beginning of the step
    nw["dens"] = [prev["dens"][i] if prev and "prm" in tr else None for i, tr in enumerate(spt)] \
        if any("prm" in tr for tr in spt) else None
    axis = axis_nodes(ref.g)
    skip = list(ref.dirichlet_nodes("mobile")) + axis
    add("hydrogen balance", ref.mobile_residual(t, dt, nw, prev).worst(skip))
    add("prescribed concentration", ref.dirichlet_error("mobile", now["w"], now["T"], t, ref.cp))
    for i, tr in enumerate(spt):
        tid = ref.trap_ids()[i]
        nodes = list(ref.dirichlet_nodes(tid))
        add(f"trap {tid} balance", ref.trap_residual(i, t, dt, nw, prev).worst(nodes))
        add(f"trap {tid} prescribed", ref.dirichlet_error(tid, now["traps"][i], now["T"], t))
    if ref.kinetics():
        add("adsorbed balance", ref.kinetics_error(t, dt, nw, prev))
    if heat:
        skipT = list(ref.dirichlet_nodes("T")) + axis
        add("heat balance", ref.heat_residual(t, dt, now["T"], prev["T"] if prev else None).worst(skipT))
        add("prescribed temperature", ref.dirichlet_error("T", now["T"], now["T"], t))
    return bad, worst


def check_trajectory(run, tol=2e-5, heat=None, what="", tT=1e-9):
    """every step of the observed trajectory against the reference model"""
    ref, sp_ = run.ref, run.sp
    heat = isinstance(sp_["T"], dict) if heat is None else heat
    steady_heat = heat and not sp_["T"]["transient"]
    rows = run.rows
    bad, worst, n = [], 0.0, 0
    transient = sp_.get("settings", {}).get("transient", True)
    prev = run.initial_row() if transient else None
    for row in rows:
        t = row["t"] if transient else 0.0
        dt = row["t"] - prev["t"] if transient else None
        xv = run.grid.x[run.grid.cells]
        if not heat:
            Tref = val(sp_["T"], xv, t)
            e = float(np.max(np.abs(row["T"] - Tref) / np.abs(Tref)))
            if e > tT:
                bad.append(f"{what}temperature: discrepancy {e:.3e} at t={t}")
        b, w = check_step(ref, row, prev, t, dt, heat=heat and not steady_heat and transient,
                          tol=tol, what=what)
        bad += b
        worst = max(worst, w)
        if steady_heat or (heat and not transient):
            e = ref.heat_residual(0.0, None, row["T"], None).worst(
                list(ref.dirichlet_nodes("T")) + axis_nodes(ref.g))
            e = max(e, ref.dirichlet_error("T", row["T"], row["T"], 0.0))
            worst = max(worst, e if e < tol else 0.0)
            if e > tol:
                bad.append(f"{what}steady heat: discrepancy {e:.3e}")
        for i, tr in enumerate(sp_.get("traps", [])):
            if "prm" in tr and transient:
                e = density_error(run, i, row, prev, t, dt)
                worst = max(worst, e if e < tol else 0.0)
                if e > tol:
                    bad.append(f"{what}trap density {i}: discrepancy {e:.3e} at t={t}")
        n += 1
        prev = row
    return bad, worst, n


def density_error(run, i, row, prev, t, dt):
    """implicit advance of the density of an extrinsic trap over the step"""
    tr = run.sp["traps"][i]
    g = run.grid
    p = tr["prm"]

    from mc.refmodel import K_B, Residual

    R = Residual(g)
    n, n0 = g.at_q(row["dens"][i]), g.at_q(prev["dens"][i])
    Tq = g.at_q(row["T"])
    P = {k: val(v, g.xq, t) for k, v in p.items()}
    R.add(g.load((n - n0) / dt))
    if tr["kind"] == "extrinsic":
        R.add(-g.load(P["phi_0"] * (1 - n / P["n_amax"]) * P["eta_a"] * P["f_a"]))
        R.add(-g.load(P["phi_0"] * (1 - n / P["n_bmax"]) * P["eta_b"] * P["f_b"]))
    else:
        R.add(-g.load(P["phi"] * P["K"] * (1 - n / P["n_max"])))
        R.add(g.load(P["A_0"] * np.exp(-P["E_A"] / K_B / Tq) * n))
    return R.worst()
