"""Numerical options don't change what is computed: solvers, preconditioners,
Jacobian and verbosity leave the results alone; tolerances are honoured."""

import itertools

from mc import specs as S

BOUNDS = {
    "quick": "10 models (one per part of the physics) x every direct and Krylov solver and preconditioner of a list, for hydrogen, heat and extrinsic traps; Jacobian updated or not; custom Newton solvers; unknown solvers and preconditioners are refused; "
    "log levels; all combinations of 3 absolute x 3 relative tolerances x 4 numbers of iterations, for hydrogen, heat and extrinsic traps: residual of every attempt before and after",
    "thorough": "as quick, all models with every combination of tolerances and with steady variants",
}
ASSUMPTIONS = ["models for which every listed solver converges; the residual is the one FESTIM gives to the solver (C08 decides that it is right)"]

SOLVERS = [(None, "default"), ("lu", "default"), ("mumps", "default"), ("umfpack", "default"), ("superlu", "none"), ("gmres", "ilu"), ("gmres", "default"), ("bicgstab", "ilu"), ("gmres", "none")]
ATOL, RTOL, ITS = [1e-2, 1e-6, 1e-10], [1e-3, 1e-6, 1e-13], [1, 2, 3, 30]


def models():
    d = S.features()
    two = {"mats": [S.mat(1, borders=[0, 0.5]), S.mat(2, borders=[0.5, 1.0])], "traps": [S.trap(1, [0]), S.trap(2, [0, 1])], "settings": {"traps_element_type": "DG"}}
    d["two"] = S.merge(d["plain"], two)
    for k, s in d.items():
        s["final"], s["dt"] = 0.4, {"initial_value": 0.2}
    return d


def cases(tier):
    out = []
    big = tier == "thorough"
    ms = models()
    for name in ms:
        opts = [{"solver": list(s)} for s in SOLVERS[1:]] + [{"jac": False}, {"log": 20}, {"custom": "default"}, {"custom": "mumps"}, {"jac": False, "solver": ["gmres", "ilu"]}]
        if name == "kinetics":
            # (a dense row of the matrix: incomplete factorisations fail)
            opts = [o for o in opts if o.get("solver", [""])[0] not in ("gmres", "bicgstab")]
        if name in ("heat", "steadyheat"):
            opts += [{"hsolver": list(s)} for s in SOLVERS[1:]] + [{"hcustom": "mumps"}, {"hits": 25}]
        if name == "extrinsic":
            opts += [{"esolver": list(s)} for s in SOLVERS[1:]]
        out.append({"id": f"opts-{name}", "kind": "opts", "name": name, "opts": opts, "cost": 20, "group": name})
        tols = list(itertools.product(ATOL, RTOL, ITS))
        if not big and name not in ("traps", "chempot", "kinetics", "fluxes"):
            tols = tols[::4] + tols[1::5]
        out.append({"id": f"tol-{name}", "kind": "tol", "name": name, "tols": tols, "cost": 20, "group": name})
    # options that can't be honoured aren't ignored
    for name in ms:
        who = ["solver"] + (["hsolver"] if name in ("heat", "steadyheat") else ["esolver"] if name == "extrinsic" else [])
        opts = [{w: list(s)} for w in who for s in (("nosuch", "default"), ("gmres", "nosuch"))]
        out.append({"id": f"unknown-{name}", "kind": "unknown", "name": name, "opts": opts, "cost": 6, "group": name})
    for name, who in (("heat", "heat"), ("extrinsic", "ext")):
        out.append({"id": f"tol-{who}-of", "kind": "tol", "who": who, "name": name, "tols": list(itertools.product(ATOL, RTOL, [0] + ITS)), "cost": 20, "group": name})
    return out


def run(case):
    import contextlib
    import copy
    import io

    import fenics as f
    import numpy as np
    from mc import build as B

    sp = models()[case["name"]]

    def make(o):
        s = copy.deepcopy(sp)
        st = s.setdefault("settings", {})
        if "solver" in o:
            st["linear_solver"], st["preconditioner"] = o["solver"]
        if "jac" in o:
            st["update_jacobian"] = o["jac"]
        r = B.Run(s)
        if "log" in o:
            r.sim.log_level = o["log"]
        if "hsolver" in o:
            r.sim.T.linear_solver, r.sim.T.preconditioner = o["hsolver"]
        if "hits" in o:
            r.sim.T.maximum_iterations = o["hits"]
        if "esolver" in o:
            for t in r.traps:
                t.linear_solver, t.preconditioner = o["esolver"]
        return r

    def custom(kind):
        n = f.NewtonSolver()
        n.parameters["error_on_nonconvergence"] = False
        n.parameters["absolute_tolerance"] = 1e-11
        n.parameters["relative_tolerance"] = 1e-12
        if kind != "default":
            n.parameters["linear_solver"] = kind
        return n

    bad, n, worst = [], 0, 0.0
    if case["kind"] == "opts":
        def go(o):
            r = make(o)
            if "hcustom" in o:
                c = custom(o["hcustom"])
                c.parameters["absolute_tolerance"] = 1e-9
                r.sim.T.newton_solver = c
            r.initialise()
            if "custom" in o:
                r.sim.h_transport_problem.newton_solver = custom(o["custom"])
            r.run()
            return r.rows

        ref = go({})
        for o in case["opts"]:
            try:
                rows = go(o)
            except Exception as e:
                bad.append(f"{case['name']} with {o}: {type(e).__name__} {' '.join(str(e).split())[:300]}")
                continue
            if len(rows) != len(ref):
                bad.append(f"{case['name']} with {o}: {len(rows)} steps, otherwise {len(ref)}")
                continue
            for a, b in zip(rows, ref):
                for k in ("c", "T"):
                    e = float(np.abs(a[k] - b[k]).max() / np.abs(b[k]).max())
                    n += 1
                    worst = max(worst, e if e < 2e-6 else 0)
                    if not e < 2e-6:
                        bad.append(f"{case['name']} with {o}: field {k} differs by {e:.1e} at t={a['t']}")
                for i, (x, y) in enumerate(zip(a["traps"], b["traps"])):
                    e = float(np.abs(x - y).max() / max(np.abs(y).max(), 1e-9))
                    n += 1
                    if not e < 2e-6:
                        bad.append(f"{case['name']} with {o}: trap {i} differs by {e:.1e} at t={a['t']}")
        return {"violations": bad[:6], "worst": worst, "states": n, "transitions": len(case["opts"]) * len(ref), "traces": len(case["opts"]) + 1, "outcome": f"{len(ref)}"}

    if case["kind"] == "unknown":
        for o in case["opts"]:
            n += 1
            try:
                r = make(o)
                r.initialise()
                r.run()
                bad.append(f"{case['name']} with {o}: no error, the option was ignored")
            except Exception:
                pass
        return {"violations": bad[:6], "states": n, "transitions": n, "traces": n, "outcome": case["id"]}

    class Watch(f.NewtonSolver):
        """the solver of the model, with the residual before and after"""

        def __init__(self, inner, log):
            super().__init__()
            self.inner, self.log = inner, log

        def norm(self, problem, x):
            b = f.PETScVector(x.mpi_comm())
            problem.F(b, x)
            return b.norm("l2")

        def solve(self, problem, vector):
            r0 = self.norm(problem, vector)
            try:
                it, ok = self.inner.solve(problem, vector)
            except RuntimeError:
                self.log.append((r0, self.norm(problem, vector), None, False))
                raise
            self.log.append((r0, self.norm(problem, vector), it, ok))
            return it, ok

    who = case.get("who", "h")
    for at, rt, it in case["tols"]:
        s = copy.deepcopy(sp)
        r = B.Run(s)
        if who == "h":
            st = r.sim.settings
            st.absolute_tolerance, st.relative_tolerance, st.maximum_iterations = at, rt, it
        elif who == "heat":
            T = r.sim.T
            T.absolute_tolerance, T.relative_tolerance, T.maximum_iterations = at, rt, it
        else:
            for t in r.traps:
                t.absolute_tolerance, t.relative_tolerance, t.maximum_iterations = at, rt, it
        log = []
        err = None
        try:
            r.initialise()
            if who == "h":
                r.sim.h_transport_problem.newton_solver = Watch(r.sim.h_transport_problem.newton_solver, log)
            elif who == "heat":
                r.sim.T.newton_solver = Watch(r.sim.T.newton_solver, log)
            else:
                for t in r.traps:
                    t.newton_solver = Watch(t.newton_solver, log)
            r.run()
        except Exception as e:
            err = f"{type(e).__name__} {' '.join(str(e).split())[:120]}"
        what = f"{case['name']}, tolerances {at:g}, {rt:g} of {who}, at most {it} iterations"
        n += len(log)
        for r0, r1, k, ok in log:
            lim = max(at, rt * r0)
            slack = 1.000001
            if ok and (r1 > lim * slack or k > it):
                bad.append(f"{what}: accepted with residual {r1:.2e} (first {r0:.2e}) after {k} iterations")
            if not ok and r1 < lim / slack:
                bad.append(f"{what}: rejected with residual {r1:.2e} (first {r0:.2e}) after {k} iterations")
        if not log:
            bad.append(f"{what}: the solver was not called ({err})")
        elif (err is None) != all(x[3] for x in log):
            bad.append(f"{what}: {err or 'no error'}, but the attempts {[x[3] for x in log]}")
        if err is None and len(r.rows) != 2:
            bad.append(f"{what}: {len(r.rows)} steps")
    return {"violations": bad[:6], "worst": worst, "states": n, "transitions": n, "traces": len(case["tols"]), "outcome": f"{case['id']}"}
