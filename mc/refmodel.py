"""Independent reference model of the equations FESTIM documents.

Nothing here imports festim or fenics: given the *observed* trajectory of a run
(fields as per-cell vertex values, temperature, stepsize, time) it evaluates the
weak residual of the documented equations with numpy, in 1D and 2D and in
cartesian, cylindrical and spherical coordinates.
"""

import numpy as np

K_B = 8.6173303e-5

_FUN = {
    "exp": np.exp,
    "sqrt": np.sqrt,
    "sin": np.sin,
    "cos": np.cos,
    "pi": np.pi,
}


def val(expr, x=None, t=0.0, T=None, **kw):
    """value of an expression of the spec at points x [..., gdim]"""
    if not isinstance(expr, str):
        v = float(expr)
        return np.full(x.shape[:-1], v) if x is not None else v
    ns = dict(_FUN)
    ns["t"] = t
    ns["T"] = T
    if x is not None:
        ns["x"] = x[..., 0]
        ns["y"] = x[..., 1] if x.shape[-1] > 1 else np.zeros(x.shape[:-1])
        ns["z"] = x[..., 2] if x.shape[-1] > 2 else np.zeros(x.shape[:-1])
    ns.update(kw)
    v = eval(expr, {"__builtins__": {}, "Heaviside": None}, ns)
    if x is not None:
        v = np.broadcast_to(np.asarray(v, dtype=float), x.shape[:-1])
    return v


def arr(pre, E, T):
    return pre * np.exp(-E / K_B / T)


def _simplex_rule(d, n=7):
    g, w = np.polynomial.legendre.leggauss(n)
    g, w = 0.5 * (g + 1), 0.5 * w
    if d == 1:
        lam = np.stack([1 - g, g], axis=1)
        return lam, w
    # collapsed coordinates on the reference triangle or tetrahedron
    pts, wts = [], []
    if d == 3:
        for i in range(n):
            for j in range(n):
                for k in range(n):
                    a, b = g[i], g[j] * (1 - g[i])
                    c = g[k] * (1 - a - b)
                    pts.append([1 - a - b - c, a, b, c])
                    wts.append(w[i] * w[j] * w[k] * (1 - a) * (1 - a - b))
        return np.array(pts), np.array(wts) * 6.0
    for i in range(n):
        for j in range(n):
            a, b = g[i], g[j] * (1 - g[i])
            pts.append([1 - a - b, a, b])
            wts.append(w[i] * w[j] * (1 - g[i]))
    return np.array(pts), np.array(wts) * 2.0  # weights sum to 1


class Grid:
    """a simplicial mesh with cell and boundary-facet markers"""

    def __init__(self, coords, cells, cell_marker, facets, coord="cartesian"):
        self.x = np.asarray(coords, float)
        if self.x.ndim == 1:
            self.x = self.x[:, None]
        self.cells = np.asarray(cells, int)
        self.marker = np.asarray(cell_marker, int)
        # facets: list of (marker, tuple of vertices, cell)
        self.facets = facets
        self.coord = coord
        self.k = {"cartesian": 0, "cylindrical": 1, "spherical": 2}[coord]
        d = self.cells.shape[1] - 1
        self.d = d
        X = self.x[self.cells]  # nc, d+1, g
        J = X[:, 1:, :] - X[:, :1, :]  # nc, d, g
        if d == 1:
            self.vol = np.abs(J[:, 0, 0])
        else:
            self.vol = np.abs(np.linalg.det(J)) / (2.0 if d == 2 else 6.0)
        Ji = np.linalg.inv(J)  # nc, g, d : grad lam_i = Ji[:, :, i-1]
        G = np.zeros(X.shape)
        G[:, 1:, :] = np.transpose(Ji, (0, 2, 1))
        G[:, 0, :] = -G[:, 1:, :].sum(axis=1)
        self.G = G
        self.lam, self.wref = _simplex_rule(d, 7 if d < 3 else 5)
        self.xq = np.einsum("qi,cig->cqg", self.lam, X)
        self.wq = self.wref[None, :] * self.vol[:, None]
        self.nv = len(self.x)

    def at_q(self, f):
        return np.einsum("qi,ci->cq", self.lam, f)

    def grad(self, f):
        return np.einsum("cig,ci->cg", self.G, f)

    def mask(self, ids):
        ids = ids if isinstance(ids, (list, tuple)) else [ids]
        return np.isin(self.marker, ids)

    def load(self, q):
        """integral of q [nc,nq] against the basis functions -> [nc, d+1]"""
        return np.einsum("cq,cq,qi->ci", q, self.wq, self.lam)

    def diff(self, flux):
        """integral of flux [nc,nq,g] against the (weighted) gradients"""
        out = np.einsum("cqg,cq,cig->ci", flux, self.wq, self.G)
        if self.k:
            r = self.xq[..., 0]
            out -= self.k * np.einsum(
                "cq,cq,cq,qi->ci", flux[..., 0], 1.0 / r, self.wq, self.lam
            )
        return out

    def facet_quad(self, verts, n=7):
        """points [q,g], weights [q], barycentric [q, nverts] on a facet"""
        if self.d == 1:
            return self.x[list(verts)], np.ones(1), np.ones((1, 1))
        if self.d == 3:
            X = self.x[list(verts)]
            lam, w = _simplex_rule(2, n)
            return lam @ X, w * 0.5 * np.linalg.norm(np.cross(X[1] - X[0], X[2] - X[0])), lam
        g, w = np.polynomial.legendre.leggauss(n)
        g, w = 0.5 * (g + 1), 0.5 * w
        a, b = self.x[verts[0]], self.x[verts[1]]
        L = np.linalg.norm(b - a)
        lam = np.stack([1 - g, g], axis=1)
        return lam @ np.stack([a, b]), w * L, lam

    def scatter(self, loc):
        out = np.zeros(self.nv)
        np.add.at(out, self.cells, loc)
        return out

    def integrate(self, f, ids=None, weight=0):
        m = np.ones(len(self.cells), bool) if ids is None else self.mask(ids)
        q = self.at_q(f) * self.xq[..., 0] ** weight
        return float((q * self.wq)[m].sum())


def line_grid(verts, layout, coord="cartesian", start_id=1, end_id=2):
    """layout: list of (a, b, id)"""
    v = np.array(sorted(set(float(a) for a in verts)))
    cells = [[i, i + 1] for i in range(len(v) - 1)]
    mid = 0.5 * (v[1:] + v[:-1])
    mark = []
    for m in mid:
        ids = [i for (a, b, i) in layout if a <= m <= b]
        mark.append(ids[0] if ids else 0)
    facets = [(start_id, (0,), 0), (end_id, (len(v) - 1,), len(cells) - 1)]
    return Grid(v, cells, mark, facets, coord)


class Residual:
    """accumulates a residual and the sum of the magnitudes of its terms"""

    def __init__(self, grid, dg=False):
        self.g, self.dg = grid, dg
        shape = grid.cells.shape if dg else (grid.nv,)
        self.r = np.zeros(shape)
        self.s = np.zeros(shape)

    def add(self, loc):
        if self.dg:
            self.r += loc
            self.s += np.abs(loc)
        else:
            self.r += self.g.scatter(loc)
            self.s += self.g.scatter(np.abs(loc))

    def add_nodes(self, nodes, v):
        for n, a in zip(nodes, v):
            self.r[n] += a
            self.s[n] += abs(a)

    def worst(self, skip=(), floor=1e-7):
        r, s = self.r.copy(), self.s.copy()
        sc = np.maximum(s, floor * max(1e-300, float(np.max(s)) if s.size else 0.0))
        q = np.abs(r) / np.maximum(sc, 1e-300)
        q[~np.isfinite(q)] = np.inf
        for n in skip:
            q[n] = 0.0
        return float(q.max()) if q.size else 0.0


class RefModel:
    """documented equations of one model (see build.py for the spec)"""

    def __init__(self, spec, grid):
        self.sp = spec
        self.g = grid
        self.cp = bool(spec.get("settings", {}).get("chemical_pot", False))
        self.soret = bool(spec.get("settings", {}).get("soret", False))
        self.dgtraps = spec.get("settings", {}).get("traps_element_type", "CG") == "DG"
        self.transient = spec.get("settings", {}).get("transient", True)
        self.mat_of = np.full(len(grid.cells), -1)
        for i, m in enumerate(spec["mats"]):
            ids = m["id"] if isinstance(m["id"], list) else [m["id"]]
            self.mat_of[np.isin(grid.marker, ids)] = i

    # -- material helpers -------------------------------------------------
    def per_cell(self, fun):
        """fun(mat) -> scalar ; returns [nc,1]"""
        v = np.array([fun(m) for m in self.sp["mats"]], dtype=float)
        return v[self.mat_of][:, None]

    def D(self, Tq):
        return arr(
            self.per_cell(lambda m: m["D"][0]), self.per_cell(lambda m: m["D"][1]), Tq
        )

    def S(self, Tq):
        if not self.cp:
            return np.ones_like(Tq)
        return arr(
            self.per_cell(lambda m: m["S"][0]), self.per_cell(lambda m: m["S"][1]), Tq
        )

    def power(self):
        if not self.cp:
            return np.ones((len(self.g.cells), 1))
        return self.per_cell(lambda m: 2.0 if m.get("law") == "henry" else 1.0)

    def conc_q(self, w, Tq):
        """mobile concentration at the quadrature points; w = c or theta"""
        return self.S(Tq) * self.g.at_q(w) ** self.power()

    def grad_conc_q(self, w, T):
        g = self.g
        Tq, wq = g.at_q(T), g.at_q(w)
        S, p = self.S(Tq), self.power()
        out = (S * p * wq ** (p - 1))[..., None] * g.grad(w)[:, None, :]
        if self.cp:
            E = self.per_cell(lambda m: m["S"][1])
            out = out + (wq**p * S * E / K_B / Tq**2)[..., None] * g.grad(T)[:, None, :]
        return out

    def cell_of(self, c):
        return self.sp["mats"][self.mat_of[c]]

    def S_at(self, c, T):
        if not self.cp:
            return 1.0
        return arr(self.cell_of(c)["S"][0], self.cell_of(c)["S"][1], T)

    def conc_at(self, c, w, T):
        p = 2.0 if (self.cp and self.cell_of(c).get("law") == "henry") else 1.0
        return self.S_at(c, T) * w**p

    # -- field lookups ----------------------------------------------------
    def trap_ids(self):
        return [
            tr.get("id") or (i + 1) for i, tr in enumerate(self.sp.get("traps", []))
        ]

    def _is_mobile(self, f):
        return str(f) in ("0", "solute", "mobile")

    def _sources_for(self, field):
        """field: 'mobile', 'T' or a trap id"""
        for s in self.sp.get("srcs", []):
            f = s["field"]
            if s["type"] == "decay" and f == "all":
                if field != "T":
                    yield s
            elif field == "mobile":
                if self._is_mobile(f):
                    yield s
            elif str(f) == str(field):
                yield s

    def _src_q(self, s, t, cq):
        g = self.g
        m = g.mask(s["vol"])[:, None]
        if s["type"] == "decay":
            return np.where(m, -s["lam"] * cq, 0.0)
        if s["type"] == "implant":
            fl = val(s["flux"], g.xq, t)
            dep = val(s["depth"], g.xq, t)
            wid = val(s["width"], g.xq, t)
            q = (
                fl
                / (wid * np.sqrt(2 * np.pi))
                * np.exp(-0.5 * ((g.xq[..., 0] - dep) / wid) ** 2)
            )
            return np.where(m, q, 0.0)
        return np.where(m, val(s["value"], g.xq, t), 0.0)

    # -- fluxes -----------------------------------------------------------
    def flux_value(self, bc, x, t, T, c):
        k = bc["type"]
        if k == "flux":
            return val(bc["value"], x, t)
        if k == "recomb":
            return -arr(val(bc["Kr"], x, t), val(bc["E"], x, t), T) * c ** bc["order"]
        if k == "dissoc":
            return arr(val(bc["Kd"], x, t), val(bc["E"], x, t), T) * val(bc["P"], x, t)
        if k == "mass":
            return -val(bc["h"], x, t) * (c - val(bc["c_ext"], x, t))
        if k == "convective":
            return -val(bc["h"], x, t) * (T - val(bc["T_ext"], x, t))
        if k == "customflux":
            return eval(
                bc["fun"],
                dict(_FUN),
                {"T": T, "c": c, "p": val(bc["prm"], x, t), "q": val(bc.get("prm2", 0), x, t)},
            )
        return None

    def _add_fluxes(self, R, bcs, t, T, w, Tonly=False):
        g = self.g
        for bc in bcs:
            for mk, vs, cell in g.facets:
                if mk not in bc["surf"]:
                    continue
                xq, wq, lam = g.facet_quad(vs)
                loc = [int(np.where(g.cells[cell] == v)[0][0]) for v in vs]
                Tq = lam @ T[cell][loc]
                if Tonly:
                    cq = None
                else:
                    cq = self.conc_at(cell, lam @ w[cell][loc], Tq)
                J = self.flux_value(bc, xq, t, Tq, cq)
                R.add_nodes(vs, -np.einsum("q,q,qi->i", J, wq, lam))

    # -- Dirichlet conditions ---------------------------------------------
    def dirichlet_value(self, bc, x, t, T):
        k = bc["type"]
        if k == "dirichlet":
            return val(bc["value"], x, t)
        if k == "sieverts":
            return arr(bc["S"][0], bc["S"][1], T) * val(bc["P"], x, t) ** 0.5
        if k == "henrys":
            return arr(bc["H"][0], bc["H"][1], T) * val(bc["P"], x, t)
        if k == "implantdc":
            D = arr(bc["D"][0], bc["D"][1], T)
            phi, Rp = val(bc["phi"], x, t), val(bc["Rp"], x, t)
            v = phi * Rp / D
            if "Kr" in bc:
                Kr = arr(bc["Kr"][0], bc["Kr"][1], T)
                if "Kd" in bc:
                    v = v + (
                        (phi + arr(bc["Kd"][0], bc["Kd"][1], T) * val(bc["P"], x, t))
                        / Kr
                    ) ** 0.5
                else:
                    v = v + (phi / Kr) ** 0.5
            return v
        if k == "customdc":
            return eval(
                bc["fun"], dict(_FUN), {"T": T, "p": val(bc["prm"], x, t), "q": val(bc.get("prm2", 0), x, t)}
            )
        return None

    DIRICHLET = ("dirichlet", "sieverts", "henrys", "implantdc", "customdc")

    def dirichlets(self, field):
        for bc in self.sp.get("bcs", []):
            if bc["type"] in self.DIRICHLET:
                f = bc.get("field", 0)
                if (
                    (field == "mobile" and self._is_mobile(f))
                    or (field == "T" and f == "T")
                    or (field not in ("mobile", "T") and str(f) == str(field))
                ):
                    yield bc

    def dirichlet_nodes(self, field):
        out = {}
        for bc in self.dirichlets(field):
            for mk, vs, cell in self.g.facets:
                if mk in bc["surf"]:
                    for v in vs:
                        out[v] = (bc, cell)
        return out

    def dirichlet_error(self, field, w, T, t, is_theta=False):
        """largest relative error of the prescribed values"""
        err = 0.0
        for v, (bc, cell) in self.dirichlet_nodes(field).items():
            loc = int(np.where(self.g.cells[cell] == v)[0][0])
            Tv = T[cell][loc]
            exp = self.dirichlet_value(bc, self.g.x[v][None, :], t, np.array([Tv]))
            exp = float(np.ravel(exp)[0])
            got = float(w[cell][loc])
            if is_theta:
                got = float(self.conc_at(cell, got, Tv))
            err = max(err, abs(got - exp) / max(abs(exp), 1e-12))
        return err

    def fluxes(self, T=False):
        return [
            bc
            for bc in self.sp.get("bcs", [])
            if bc["type"] in ("flux", "recomb", "dissoc", "mass", "convective", "customflux")
            and ((bc.get("field", 0) == "T") or bc["type"] == "convective") == T
        ]

    def kinetics(self):
        return [bc for bc in self.sp.get("bcs", []) if bc["type"] == "kinetics"]

    # -- trapping ---------------------------------------------------------
    def trap_rate_q(self, i, cq, ctq, Tq, t, density=None):
        """k c (n - ct) and -p ct at the quadrature points"""
        tr = self.sp["traps"][i]
        out, out2 = np.zeros_like(ctq), np.zeros_like(ctq)
        for j, mi in enumerate(tr["mats"]):
            m = (self.mat_of == mi)[:, None]

            def g(key):
                return tr[key][j] if isinstance(tr[key], list) else tr[key]

            k, p = arr(g("k"), g("E_k"), Tq), arr(g("p"), g("E_p"), Tq)
            if density is not None:
                n = self.g.at_q(density)
            else:
                dens = tr["dens"]
                n = val(dens[j] if isinstance(dens, list) else dens, self.g.xq, t)
            out = out + np.where(m, k * cq * (n - ctq), 0.0)
            out2 = out2 - np.where(m, p * ctq, 0.0)
        return out, out2

    # -- residuals --------------------------------------------------------
    def mobile_residual(self, t, dt, now, prev):
        """now/prev: dict(w=..., T=..., traps=[...], cs={surface: value},
        dens=[...]) with per-cell vertex values"""
        g = self.g
        R = Residual(g)
        w, T = now["w"], now["T"]
        Tq = g.at_q(T)
        cq = self.conc_q(w, Tq)
        inside = (self.mat_of >= 0)[:, None]
        if dt is not None:
            cnq = self.conc_q(prev["w"], g.at_q(prev["T"]))
            # storage split in two so that the scale reflects both
            R.add(g.load(np.where(inside, cq / dt, 0.0)))
            R.add(-g.load(np.where(inside, cnq / dt, 0.0)))
        flux = self.D(Tq)[..., None] * self.grad_conc_q(w, T)
        R.add(g.diff(flux))
        if self.soret:
            Q = np.zeros_like(Tq)
            for i, m in enumerate(self.sp["mats"]):
                Q = np.where((self.mat_of == i)[:, None], val(m["Q"], None, T=Tq), Q)
            R.add(
                g.diff(
                    (self.D(Tq) * Q * cq / (K_B * Tq**2))[..., None]
                    * g.grad(T)[:, None, :]
                )
            )
        for i, tr in enumerate(self.sp.get("traps", [])):
            dens = now["dens"][i] if now.get("dens") else None
            for q in self.trap_rate_q(i, cq, g.at_q(now["traps"][i]), Tq, t, dens):
                R.add(g.load(q))
        for s in self._sources_for("mobile"):
            R.add(-g.load(self._src_q(s, t, cq)))
        self._add_fluxes(R, self.fluxes(), t, T, w)
        for bc in self.kinetics():
            for mk, vs, cell in g.facets:
                if mk in bc["surf"]:
                    J = self.kin_fluxes(bc, mk, cell, vs, now, prev, t, dt)
                    R.add_nodes(vs, [J["lam"]])
                    R.add_nodes(vs, [J["bs"]])
                    R.add_nodes(vs, [-J["sb"]])
        return R

    def kin_fluxes(self, bc, mk, cell, vs, now, prev, t, dt):
        g = self.g
        loc = int(np.where(g.cells[cell] == vs[0])[0][0])
        T = now["T"][cell][loc]
        c = self.conc_at(cell, now["w"][cell][loc], T)
        cs = now["cs"][mk]
        x = g.x[vs[0]][None, :]
        prm = float(np.ravel(val(bc["prm"], x, t))[0])
        ns = {"T": T, "cs": cs, "c": c, "p": prm, "q": float(np.ravel(val(bc.get("prm2", 0), x, t))[0])}

        def ev(e):
            return eval(e, dict(_FUN), ns) if isinstance(e, str) else float(e)

        k_sb, k_bs, J_vs = ev(bc["k_sb"]), ev(bc["k_bs"]), ev(bc["J_vs"])
        out = {
            "sb": k_sb * cs * (1 - c / bc["n_IS"]),
            "bs": k_bs * c * (1 - cs / bc["n_surf"]),
            "vs": J_vs,
            "lam": 0.0,
            "dcs": 0.0,
        }
        if dt is not None:
            Tn = prev["T"][cell][loc]
            cn = self.conc_at(cell, prev["w"][cell][loc], Tn)
            out["lam"] = bc["lam"] * (c - cn) / dt
            out["dcs"] = (cs - prev["cs"][mk]) / dt
        return out

    def kinetics_error(self, t, dt, now, prev):
        worst = 0.0
        for bc in self.kinetics():
            for mk, vs, cell in self.g.facets:
                if mk in bc["surf"]:
                    J = self.kin_fluxes(bc, mk, cell, vs, now, prev, t, dt)
                    r = J["dcs"] - (J["vs"] + J["bs"] - J["sb"])
                    s = abs(J["dcs"]) + abs(J["vs"]) + abs(J["bs"]) + abs(J["sb"])
                    worst = max(worst, abs(r) / max(s, 1e-12))
        return worst

    def trap_residual(self, i, t, dt, now, prev):
        g = self.g
        tid = self.trap_ids()[i]
        R = Residual(g, dg=self.dgtraps)
        ct = now["traps"][i]
        Tq = g.at_q(now["T"])
        cq = self.conc_q(now["w"], Tq)
        ctq = g.at_q(ct)
        if dt is not None:
            R.add(g.load(ctq / dt))
            R.add(-g.load(g.at_q(prev["traps"][i]) / dt))
        else:
            outside = ~np.isin(self.mat_of, self.sp["traps"][i]["mats"])[:, None]
            R.add(g.load(np.where(outside, ctq, 0.0)))
        dens = now["dens"][i] if now.get("dens") else None
        for q in self.trap_rate_q(i, cq, ctq, Tq, t, dens):
            R.add(-g.load(q))
        for s in self._sources_for(tid):
            R.add(-g.load(self._src_q(s, t, ctq)))
        return R

    def heat_residual(self, t, dt, T, Tn):
        g = self.g
        R = Residual(g)
        Tq = g.at_q(T)

        def prop(key):
            out = np.zeros_like(Tq)
            for i, m in enumerate(self.sp["mats"]):
                out = np.where(
                    (self.mat_of == i)[:, None], val(m[key], None, T=Tq), out
                )
            return out

        if dt is not None:
            R.add(g.load(prop("rho") * prop("cp") * (Tq - g.at_q(Tn)) / dt))
        R.add(g.diff(prop("k_th")[..., None] * g.grad(T)[:, None, :]))
        for s in self._sources_for("T"):
            R.add(-g.load(self._src_q(s, t, None)))
        self._add_fluxes(R, self.fluxes(T=True), t, T, None, Tonly=True)
        return R

    # -- initial state ----------------------------------------------------
    def initial(self, T0):
        """cell-vertex values of (w, [traps]) from the initial conditions"""
        g = self.g
        xv = g.x[g.cells]
        w = np.zeros(g.cells.shape)
        traps = [np.zeros(g.cells.shape) for _ in self.sp.get("traps", [])]
        ids = [str(i) for i in self.trap_ids()]
        for ic in self.sp.get("ics", []):
            if ic["field"] == "T":
                continue
            v = val(ic["value"], xv, 0.0)
            if self._is_mobile(ic["field"]):
                if self.cp:
                    Tq = g.at_q(T0)
                    q = (val(ic["value"], g.xq, 0.0) / self.S(Tq)) ** (
                        1.0 / self.power()
                    )
                    q = np.where((self.mat_of >= 0)[:, None], q, 0.0)
                    M = np.zeros((g.nv, g.nv))
                    ml = np.einsum("cq,qi,qj->cij", g.wq, g.lam, g.lam)
                    for c, vs in enumerate(g.cells):
                        M[np.ix_(vs, vs)] += ml[c]
                    w = np.linalg.solve(M, g.scatter(g.load(q)))[g.cells]
                else:
                    w = v
            else:
                traps[ids.index(str(ic["field"]))] = v
        return w, traps
