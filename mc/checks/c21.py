"""Equivalent ways of writing a model give the same results."""

import itertools

BOUNDS = {
    "quick": "a hydrogen model (2 materials, 2 traps, prescribed and flux conditions, sources, initial conditions, quantities) and a coupled heat model; every documented way of writing each "
    "of their parts (scalars or lists, objects or names, containers or lists, numbers, sympy or FEniCS expressions, arguments or attributes, one object on several places or several objects, "
    "before or after construction), all pairs of ways of parts that meet in the code, all orders of every list of parts; all fields at every step",
    "thorough": "as quick, all pairs of ways, with conservation of chemical potential and discontinuous elements, and all pairs of orders",
}
ASSUMPTIONS = ["the results of the first way of writing are decided by the other properties"]

# part -> ways of writing it (the first one is the reference)
H = {
    "sim": ["attributes", "arguments", "after"],
    "mesh": ["list", "array", "shuffled", "repeated"],
    "mats": ["list", "Materials", "append"],
    "matid": ["int", "list"],
    "borders": ["pair", "listpair", "split"],
    "D": ["float", "numpy"],
    "traps": ["list", "Traps", "append"],
    "trapmats": ["object", "name", "listname", "mixed"],
    "trapk": ["scalar", "lists"],
    "trapid": ["auto", "given"],
    "dens": ["float", "sympy", "expression", "user", "list"],
    "T": ["Temperature", "sympy"],
    "bc": ["one", "list", "name", "str", "split"],
    "bcval": ["sympy", "other"],
    "flux": ["one", "list", "halves"],
    "src": ["each", "list", "expression", "user", "halves", "name"],
    "srct": ["int", "str"],
    "ic": ["sympy", "name", "str", "after"],
    "ict": ["int", "str", "sympy"],
    "set": ["arguments", "attributes"],
    "dt": ["Stepsize", "float", "milestones"],
    "exports": ["list", "Exports", "single", "append"],
    "dq": ["list", "append", "two"],
    "log": ["50", "40"],
}
HEAT = {
    "sim": H["sim"],
    "k": ["lambda", "float"],
    "cp": ["lambda", "float"],
    "rho": ["float", "lambda"],
    "init": ["sympy", "object"],
    "tbc": ["one", "list", "split"],
    "conv": ["one", "list"],
    "tsrc": ["each", "list", "expression", "user", "halves"],
    "tr": ["argument", "attribute"],
    "traps": H["traps"],
    "bc": H["bc"],
    "dt": H["dt"],
    "matid": H["matid"],
}
# parts that meet in the code
AREAS = [
    {"sim", "mats", "matid", "borders", "mesh"}, {"traps", "trapmats", "trapk", "trapid", "dens"}, {"matid", "borders", "trapmats", "src"},
    {"bc", "bcval", "flux", "sim"}, {"src", "srct", "sim"}, {"ic", "ict", "sim", "trapid"}, {"exports", "dq", "set", "dt", "T"}, {"trapid", "srct", "ict", "traps"},
    {"tbc", "conv", "sim"}, {"tsrc", "matid"}, {"k", "cp", "rho"}, {"init", "tr"},
]
LISTS = {"mats": 2, "traps": 2, "bcs": 3, "srcs": 3, "ics": 2, "dqs": 3}


def cases(tier):
    out = []
    big = tier == "thorough"
    for name, parts in (("h", H), ("heat", HEAT)):
        ways = [(p, w) for p in parts for w in parts[p][1:]]
        todo = [{}] + [dict([a]) for a in ways] + [dict([a, b]) for a, b in itertools.combinations(ways, 2) if a[0] != b[0]
                                                           and (big or any({a[0], b[0]} <= x for x in AREAS))]
        ext = [{"el": "CG", "cp": 0}] + ([{"el": "DG", "cp": 1}, {"el": "DG", "cp": 0}] if big else [])
        for e in ext:
            for k in range(0, len(todo), 12):
                out.append({"id": f"{name}-{e['el']}{e['cp']}-{k}", "kind": name, "ext": e, "group": f"{name}{k % 8}", "cost": 12, "todo": todo[k:k + 12]})
    perms = [{l: list(p)} for l, n in LISTS.items() for p in itertools.permutations(range(n))]
    if big:
        perms += [dict(a, **b) for a, b in itertools.combinations(perms, 2) if set(a) != set(b)]
    for e in ({"el": "CG", "cp": 0}, {"el": "DG", "cp": 1}):
        for k in range(0, len(perms), 12):
            out.append({"id": f"perm-{e['el']}{e['cp']}-{k}", "kind": "h", "ext": e, "group": "perm", "cost": 12,
                        "todo": [{"trapid": "given", "order": p} for p in perms[k:k + 12]]})
    return out


def build(kind, ext, ch, owner):
    """the model written as `ch` says"""
    import fenics as f
    import festim as F
    import numpy as np
    import sympy as sp
    from mc.build import Snapshot

    heat = kind == "heat"
    parts = HEAT if heat else H
    way = lambda p: ch.get(p, parts[p][0] if p in parts else H[p][0] if p in H else None)
    order = ch.get("order", {})

    class User(f.UserExpression):
        def __init__(self, fun, **k):
            super().__init__(**k)
            self.fun, self.t = fun, 0

        def eval(self, value, x):
            value[0] = self.fun(x[0], self.t)

        def value_shape(self):
            return ()

    # -- mesh, materials
    V = [0.0, 0.1, 0.25, 0.4, 0.5, 0.6, 0.8, 1.0]
    V = {"list": V, "array": np.array(V), "shuffled": [0.4, 0.0, 1.0, 0.6, 0.1, 0.25, 0.8, 0.5], "repeated": [0.0, 0.1, 0.25, 0.4, 0.5, 0.5, 0.6, 0.8, 1.0, 1.0]}[way("mesh")]
    mesh = F.MeshFromVertices(V)
    num = (lambda v: v) if way("D") == "float" else np.float64
    mats = []
    for i, (D, E, b) in enumerate(((1.1, 0.02, [0, 0.5]), (0.7, 0.03, [0.5, 1.0]))):
        kw = {}
        ids = i + 1
        bb = {"pair": b, "listpair": [b], "split": [[b[0], b[0] + 0.25 if i == 0 else 0.6], [0.25 if i == 0 else 0.6, b[1]]]}[way("borders")]
        if way("borders") == "split":
            ids = [i + 1, i + 3]
        elif way("borders") == "listpair":
            ids = [i + 1]
        elif way("matid") == "list":
            ids, bb = [i + 1], [b]
        if heat:
            kt, ct, rt = (1.5, 2.0, 1.2) if i == 0 else (0.8, 1.1, 1.4)
            kw = {
                "thermal_cond": kt if way("k") == "float" else lambda T, v=kt: v + 0 * T,
                "heat_capacity": ct if way("cp") == "float" else lambda T, v=ct: v + 0 * T,
                "rho": rt if way("rho") == "float" else lambda T, v=rt: v + 0 * T,
            }
        if ext["cp"]:
            kw.update(S_0=[2.0, 3.0][i], E_S=[0.01, 0.02][i])
        mats.append(F.Material(id=ids, D_0=num(D), E_D=num(E), borders=bb, name=["W 2", "W"][i], **kw))
    first, both = mats[0], list(mats)
    # -- traps: in the first material; in both
    tm = {"object": (first, both), "name": (first.name, [m.name for m in both]), "listname": ([first.name], [m.name for m in both]),
          "mixed": ([first], [both[0].name, both[1]])}[way("trapmats")]
    d = way("dens")
    d1 = {"float": 1.3, "sympy": sp.Float(1.3), "expression": f.Expression("1.3", degree=2, t=0) if d == "expression" else None,
          "user": User(lambda x, t: 1.3, degree=2) if d == "user" else None, "list": [1.3]}[d]
    d2 = {"float": 0.6 + 0.5 * F.x + F.t, "sympy": F.t + (1.2 + F.x) / 2, "expression": f.Expression("0.6+0.5*x[0]+t", degree=2, t=0) if d == "expression" else None,
          "user": User(lambda x, t: 0.6 + 0.5 * x + t, degree=2) if d == "user" else None, "list": [0.6 + 0.5 * F.x + F.t]}[d]
    if way("trapk") == "scalar":
        k1, k2 = (1.3, 0.01, 0.7, 0.02), (0.8, 0.02, 0.4, 0.01)
    else:
        k1, k2 = ([1.3], [0.01], [0.7], [0.02]), ([0.8] * 2, [0.02] * 2, [0.4] * 2, [0.01] * 2)
        if not isinstance(d1, list):
            d1 = [d1]
        d2 = (d2 if isinstance(d2, list) else [d2]) * 2
    gid = way("trapid") == "given"
    traps = [F.Trap(*k1, tm[0], d1, **({"id": 1} if gid else {})), F.Trap(*k2, tm[1], d2, **({"id": 2} if gid else {}))]
    # -- conditions
    b = way("bc")
    fld = {"name": "solute", "str": "0"}.get(b, 0)
    sf = [1] if b == "list" else 1
    v = 1 + F.t if way("bcval") == "sympy" else (2 + 2 * F.t) / 2
    bcs = [F.DirichletBC(surfaces=sf, value=v, field=fld)]
    if heat:
        w = way("tbc")
        vals = 320 + 20 * F.t
        if w == "split":
            bcs += [F.DirichletBC(surfaces=1, value=vals, field="T")]
        else:
            bcs += [F.DirichletBC(surfaces=[1] if w == "list" else 1, value=vals, field="T")]
        bcs += [F.ConvectiveFlux(h_coeff=0.8, T_ext=330 + 5 * F.t, surfaces=2 if way("conv") == "one" else [2])]
        bcs += [F.FluxBC(surfaces=2, value=5.0, field="T")] if w != "split" else [F.FluxBC(surfaces=2, value=2.0, field="T"), F.FluxBC(surfaces=2, value=3.0, field="T")]
    else:
        w = way("flux")
        if w == "halves":
            bcs += [F.FluxBC(surfaces=2, value=0.2 + 0.1 * F.t, field=0), F.FluxBC(surfaces=2, value=0.2 + 0.1 * F.t, field=0)]
        else:
            bcs += [F.FluxBC(surfaces=2 if w == "one" else [2], value=0.4 + 0.2 * F.t, field=0)]
        bcs += [F.RecombinationFlux(Kr_0=0.3, E_Kr=0.01, order=2, surfaces=2 if w == "one" else [2])]
    # -- sources
    vols = [i for m in mats for i in (m.id if isinstance(m.id, list) else [m.id])]

    def sources(w, field, c):
        e = c * (1 + F.t) * (1 + F.x)
        if w in ("each", "name"):
            return [F.Source(value=e, volume=i, field=field) for i in vols]
        if w == "list":
            return [F.Source(value=e, volume=vols, field=field)]
        if w == "expression":
            return [F.Source(value=f.Expression(f"{c}*(1+t)*(1+x[0])", degree=2, t=0), volume=i, field=field) for i in vols]
        if w == "user":
            return [F.Source(value=User(lambda x, t: c * (1 + t) * (1 + x), degree=2), volume=i, field=field) for i in vols]
        return [F.Source(value=e / 2, volume=i, field=field) for i in vols for _ in (0, 1)]

    if heat:
        srcs = sources(way("tsrc"), "T", 40)
    else:
        srcs = sources(way("src"), "solute" if way("src") == "name" else 0, 0.3)
    t1 = traps[0]
    srcs.append(F.Source(value=0.2, volume=1, field=1 if way("srct") == "int" else "1"))
    if way("borders") == "split":
        srcs.append(F.Source(value=0.2, volume=3, field=1))
    # -- initial conditions
    fi = {"name": "solute", "str": "0"}.get(way("ic"), 0)
    ics = [F.InitialCondition(field=fi, value=1 + F.x), F.InitialCondition(field=2 if way("ict") != "str" else "2", value=sp.Float(0.2) if way("ict") == "sympy" else 0.2)]
    # -- temperature
    if heat:
        init = 320 + 10 * F.x
        init = init if way("init") == "sympy" else F.InitialCondition(field="T", value=init)
        if way("tr") == "argument":
            T = F.HeatTransferProblem(transient=True, initial_condition=init, absolute_tolerance=1e-9, relative_tolerance=1e-12)
        else:
            T = F.HeatTransferProblem()
            T.transient, T.initial_condition, T.absolute_tolerance, T.relative_tolerance = True, init, 1e-9, 1e-12
    else:
        T = F.Temperature(310 + 20 * F.x + 30 * F.t) if way("T") == "Temperature" else 310 + 20 * F.x + 30 * F.t
    # -- settings
    kw = dict(absolute_tolerance=1e-11, relative_tolerance=1e-12, final_time=0.5, traps_element_type=ext["el"], chemical_pot=bool(ext["cp"]), maximum_iterations=40)
    if way("set") == "arguments":
        st = F.Settings(**kw)
    else:
        st = F.Settings(1e-3, 1e-3)
        for k_, v_ in kw.items():
            setattr(st, k_, v_)
    dt = {"Stepsize": F.Stepsize(0.25), "float": 0.25, "milestones": F.Stepsize(0.25, milestones=[0.5, 0.25])}[way("dt")]
    # -- exports
    q = [Snapshot("1", owner), Snapshot("T", owner), Snapshot("2", owner), Snapshot("solute", owner)]
    extra = [F.TotalVolume("retention", 1), F.AverageVolume(0, 1), F.SurfaceFlux(0, 2)]
    extra = [extra[i] for i in order.get("dqs", range(3))]
    w = way("dq")
    if w == "list":
        dqs = [F.DerivedQuantities(q + extra)]
    elif w == "append":
        dq = F.DerivedQuantities()
        for x in q:
            dq.append(x)
        dq.extend(extra)
        dqs = [dq]
    else:
        dqs = [F.DerivedQuantities(extra), F.DerivedQuantities(q)]
    owner.extra = extra
    # -- orders
    pick = lambda l, name: [l[i] for i in order[name]] + l[len(order[name]):] if name in order else l
    mats, traps, bcs, srcs, ics = pick(mats, "mats"), pick(traps, "traps"), pick(bcs, "bcs"), pick(srcs, "srcs"), pick(ics, "ics")

    def container(w, cls, items):
        if w == "list":
            return items
        if w == "append":
            c = cls()
            for i in items:
                c.append(i)
            return c
        return cls(items)

    M = container(way("mats"), F.Materials, mats)
    TR = container(way("traps"), F.Traps, traps)
    ex = way("exports")
    EX = dqs if ex == "list" else dqs[0] if ex == "single" and len(dqs) == 1 else container("append" if ex == "append" else "x", F.Exports, dqs)
    log = int(way("log"))
    w = way("sim")
    if w == "arguments":
        s = F.Simulation(mesh=mesh, materials=M, sources=srcs, boundary_conditions=bcs, traps=TR, dt=dt, settings=st, temperature=T, initial_conditions=ics, exports=EX, log_level=log)
    else:
        s = F.Simulation(log_level=log)
        s.mesh, s.materials, s.traps, s.T, s.dt, s.settings, s.exports = mesh, M, TR, T, dt, st, EX
        if w == "after" or way("ic") == "after":
            s.sources, s.boundary_conditions, s.initial_conditions = [], [], []
            for i in srcs:
                s.sources.append(i)
            for i in bcs:
                s.boundary_conditions.append(i)
            for i in ics:
                s.initial_conditions.append(i)
        else:
            s.sources, s.boundary_conditions, s.initial_conditions = srcs, bcs, ics
    return s


def run(case):
    import fenics as f
    import numpy as np

    class Owner:
        def __init__(self):
            self.rows, self.row = [], {}

        def take(self, field, fn):
            V = f.FunctionSpace(self.sim.mesh.mesh, "DG", 1)
            g = f.interpolate(fn, V) if hasattr(fn, "function_space") else f.project(fn, V)
            x = V.tabulate_dof_coordinates()[:, 0]
            cd = np.array([V.dofmap().cell_dofs(i) for i in range(self.sim.mesh.mesh.num_cells())])
            self.row[field] = g.vector().get_local()[cd]
            if field == "solute":
                self.rows.append((self.sim.t, self.row))
                self.row = {}

    def go(ch):
        o = Owner()
        s = build(case["kind"], case["ext"], ch, o)
        o.sim = s
        s.initialise()
        s.run()
        q = {type(x).__name__ + str(x.field): list(x.data) for x in o.extra}
        return o.rows, q

    ref, rq = go({})
    bad, n, worst = [], 0, 0.0
    for ch in case["todo"]:
        try:
            rows, q = go(ch)
        except Exception as e:
            bad.append(f"written with {ch}: {type(e).__name__}: {str(e)[:200]}")
            continue
        if len(rows) != len(ref) or any(abs(a[0] - b[0]) > 1e-12 for a, b in zip(rows, ref)):
            bad.append(f"written with {ch}: steps {[r[0] for r in rows]}, otherwise {[r[0] for r in ref]}")
            continue
        for (t, a), (_, b) in zip(rows, ref):
            for fld in b:
                n += 1
                e = float(np.abs(a[fld] - b[fld]).max() / np.abs(b[fld]).max())
                worst = max(worst, e if e < 1e-6 else 0)
                if not e < 1e-6:
                    bad.append(f"written with {ch}: field {fld} differs by {e:.1e} at t={t}")
        if any(not k.endswith("split") for k in ch.values() if isinstance(k, str)) or not ch:
            for k in rq:
                if ch.get("borders") == "split" and "Volume" in k:
                    continue  # the volume is another one
                e = max(abs(a - b) for a, b in zip(q[k], rq[k])) / max(map(abs, rq[k]))
                n += 1
                if not e < 1e-6:
                    bad.append(f"written with {ch}: {k} {q[k]}, otherwise {rq[k]}")
    return {"violations": bad[:6], "worst": worst, "states": n, "transitions": len(case["todo"]) * len(ref), "traces": len(case["todo"]) + 1, "outcome": f"{case['kind']}{len(ref)}"}
