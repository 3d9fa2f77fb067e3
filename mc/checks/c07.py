"""Every time-dependent input acts with its value at the time of the step."""

from mc import specs as S

BOUNDS = {
    "quick": "every documented time-dependent input, one at a time, x 6 schedules of the time stepping "
    "(constant, growing, shrinking, rejected at the first / second step, milestone); all ordered pairs of 5 time-dependent prescribed values on the two surfaces; every kind of flux, source, trap and thermal input twice at once, in both orders; every 4th case also in 5 other systems of units",
    "thorough": "as quick x all schedules of length 4",
}
ASSUMPTIONS = ["inputs of the enumerated shapes (polynomial in time)"]


def inputs():
    d = {}
    left = {"type": "dirichlet", "value": 1.0, "surf": [1]}
    ic = [{"field": 0, "value": "1.0+x"}]
    P = "1.0+2.0*t**2"

    def bc(name, *b, **k):
        d[name] = S.base(ics=ic, bcs=list(b), **k)

    bc("temperature", left, T="300+40*t*t")
    bc("dirichlet", dict(left, value="1.0+x+t*t"))
    bc("dirichlet-trap", {"type": "dirichlet", "value": P, "field": 1, "surf": [1]}, traps=[S.trap(1, [0])])
    bc("sieverts", {"type": "sieverts", "S": [1.2, 0.01], "P": P, "surf": [1]})
    bc("sieverts-T", {"type": "sieverts", "S": [1.2, 0.05], "P": 2.0, "surf": [1]}, T="300+80*t*t")
    bc("henrys", {"type": "henrys", "H": [1.2, 0.01], "P": P, "surf": [1]})
    bc("henrys-T", {"type": "henrys", "H": [1.2, 0.05], "P": 2.0, "surf": [1]}, T="300+80*t*t")
    imp = {"type": "implantdc", "phi": 1.5, "Rp": 0.3, "D": [1.1, 0.02], "Kr": [0.8, 0.01],
           "Kd": [0.5, 0.02], "P": 1.0, "surf": [1]}
    bc("implantdc-phi", dict(imp, phi=P))
    bc("implantdc-Rp", dict(imp, Rp="0.3+0.2*t"))
    bc("implantdc-P", dict(imp, P=P))
    bc("implantdc-T", imp, T="300+80*t*t")
    bc("customdc", {"type": "customdc", "fun": "p+0.001*T", "prm": P, "surf": [1]}, T="300+80*t*t")
    bc("flux", left, {"type": "flux", "value": P, "surf": [2]})
    bc("recomb", left, {"type": "recomb", "Kr": P, "E": 0.01, "order": 1, "surf": [2]})
    bc("recomb-E", left, {"type": "recomb", "Kr": 0.6, "E": "0.01+0.03*t", "order": 1, "surf": [2]})
    bc("recomb-T", left, {"type": "recomb", "Kr": 0.6, "E": 0.05, "order": 1, "surf": [2]}, T="300+80*t*t")
    bc("dissoc", left, {"type": "dissoc", "Kd": P, "E": 0.01, "P": 2.0, "surf": [2]})
    bc("dissoc-E", left, {"type": "dissoc", "Kd": 0.6, "E": "0.01+0.03*t", "P": 2.0, "surf": [2]})
    bc("dissoc-P", left, {"type": "dissoc", "Kd": 0.6, "E": 0.01, "P": P, "surf": [2]})
    bc("mass-h", left, {"type": "mass", "h": P, "c_ext": 0.3, "surf": [2]})
    bc("mass-c", left, {"type": "mass", "h": 0.6, "c_ext": P, "surf": [2]})
    bc("customflux", left, {"type": "customflux", "fun": "-p*c+0.001*T", "prm": P, "surf": [2]}, T="300+80*t*t")
    bc("kinetics", dict(S.KIN, prm=P))
    bc("source", left, srcs=[{"type": "source", "value": "x+2*t*t", "field": 0, "vol": [1]}])
    bc("source-trap", left, traps=[S.trap(1, [0])],
       srcs=[{"type": "source", "value": "0.2+t*t", "field": 1, "vol": [1]}])
    bc("implant-flux", left, srcs=[{"type": "implant", "flux": P, "depth": 0.3, "width": 0.8, "vol": [1], "field": 0}])
    bc("implant-depth", left, srcs=[{"type": "implant", "flux": 2.0, "depth": "0.3+t", "width": 0.8, "vol": [1], "field": 0}])
    bc("implant-width", left, srcs=[{"type": "implant", "flux": 2.0, "depth": 0.3, "width": "0.8+t", "vol": [1], "field": 0}])
    bc("density", left, traps=[S.trap(1, [0], dens="0.5+x+2*t*t")])
    bc("density-multi", left, mats=[S.mat(1, borders=[0, 0.5]), S.mat(2, borders=[0.5, 1.0])],
       traps=[dict(S.trap(1, [0, 1]), k=[1.3, 0.8], E_k=[0.01, 0.02], p=[0.7, 0.4], E_p=[0.02, 0.01],
                   dens=["0.5+2*t*t", "0.3+t"])], settings={"traps_element_type": "DG"})
    for p in ("phi_0", "f_a", "f_b"):
        prm = dict(S.EXTRINSIC, phi_0=1.2, f_a=1.0)
        prm[p] = P
        bc(f"extrinsic-{p}", left, traps=[dict(S.trap(1, [0]), kind="extrinsic", prm=prm)])
    bc("neutron-phi", left, traps=[dict(S.trap(1, [0]), kind="neutron", prm=dict(S.NEUTRON, phi=P))])
    bc("neutron-T", left, T="300+80*t*t",
       traps=[dict(S.trap(1, [0]), kind="neutron", prm=dict(S.NEUTRON, phi=1.0, E_A=0.05))])
    H = {"mats": [S.therm(1)], "T": {"transient": True, "init": 300.0}}
    bc("heat-dirichlet", left, {"type": "dirichlet", "field": "T", "value": "300+90*t*t", "surf": [1]}, **H)
    bc("heat-flux", left, {"type": "flux", "field": "T", "value": "50+90*t*t", "surf": [2]}, **H)
    bc("heat-conv-h", left, {"type": "convective", "h": P, "T_ext": 350.0, "surf": [2]}, **H)
    bc("heat-conv-T", left, {"type": "convective", "h": 0.8, "T_ext": "320+90*t*t", "surf": [2]}, **H)
    bc("heat-customflux", left, {"type": "customflux", "field": "T", "fun": "-p*(T-290)", "prm": P, "surf": [2]}, **H)
    bc("heat-customdc", left, {"type": "customdc", "field": "T", "fun": "300+p", "prm": P, "surf": [2]}, **H)
    bc("heat-source", left, srcs=[{"type": "source", "value": "100+90*t*t", "field": "T", "vol": [1]}], **H)
    bc("chempot", dict(left, value="1.0+x+t*t"), mats=[S.mat(1, S=[2.0, 0.05])], T="300+80*t*t",
       settings={"chemical_pot": True})
    bc("chempot-sieverts", {"type": "sieverts", "S": [1.2, 0.01], "P": P, "surf": [1]},
       mats=[S.mat(1, S=[2.0, 0.05])], T="300+80*t*t", settings={"chemical_pot": True})
    return d


def together():
    """several time-dependent inputs at once: every kind twice, in both orders; all pairs of prescribed values"""
    d = {}
    ic = [{"field": 0, "value": "1.0+x"}]
    P, Q = "1.0+2.0*t**2", "0.5+t"
    dc = {
        "dirichlet": {"type": "dirichlet", "value": "1.0+x+t*t"},
        "sieverts": {"type": "sieverts", "S": [1.2, 0.05], "P": P},
        "henrys": {"type": "henrys", "H": [1.2, 0.05], "P": P},
        "implantdc": {"type": "implantdc", "phi": P, "Rp": "0.3+0.2*t", "D": [1.1, 0.02], "Kr": [0.8, 0.01],
                      "Kd": [0.5, 0.02], "P": Q},
        "customdc": {"type": "customdc", "fun": "p+0.001*T", "prm": P},
    }
    for a in dc:
        for b in dc:
            d[f"dc-{a}-{b}"] = S.base(T="300+80*t*t", ics=ic, bcs=[dict(dc[a], surf=[1]), dict(dc[b], surf=[2])])
    left = {"type": "dirichlet", "value": "1.0+t*t", "surf": [1]}
    fl = [{"type": "flux", "value": v, "surf": [2]} for v in (P, Q)]
    fl += [{"type": "recomb", "Kr": v, "E": e, "order": 1, "surf": [2]} for v, e in ((Q, "0.01+0.03*t"), (P, 0.02))]
    fl += [{"type": "dissoc", "Kd": v, "E": e, "P": w, "surf": [2]} for v, e, w in ((P, 0.01, Q), (Q, "0.01+0.03*t", P))]
    fl += [{"type": "mass", "h": v, "c_ext": w, "surf": [2]} for v, w in ((P, Q), (Q, P))]
    fl += [{"type": "customflux", "fun": "-p*c+0.001*T", "prm": v, "surf": [2]} for v in (P, Q)]
    src = [{"type": "source", "value": v, "field": k, "vol": [1]} for k in (0, 1) for v in ("x+2*t*t", "0.1+t")]
    imp = [{"type": "implant", "flux": v, "depth": "0.3+t", "width": w, "vol": [1], "field": 0}
           for v, w in ((P, 0.8), (Q, "0.9+t"))]
    traps = [S.trap(1, [0], id=1, dens="0.5+x+2*t*t"), S.trap(2, [0], id=2, dens="0.4+t"),
             dict(S.trap(3, [0], id=3), kind="extrinsic", prm=dict(S.EXTRINSIC, phi_0=P, f_a=Q)),
             dict(S.trap(2, [0], id=4), kind="neutron", prm=dict(S.NEUTRON, phi=P))]
    hb = [{"type": "flux", "field": "T", "value": v, "surf": [2]} for v in ("50+90*t*t", "20*t")]
    hb += [{"type": "convective", "h": v, "T_ext": w, "surf": [2]} for v, w in ((P, "320+90*t*t"), (Q, "330+50*t"))]
    hb += [{"type": "customflux", "field": "T", "fun": "-p*(T-290)", "prm": v, "surf": [2]} for v in (P, Q)]
    hs = [{"type": "source", "value": v, "field": "T", "vol": [1]} for v in ("100+90*t*t", "50*t", "30+x+20*t")]
    for n, o in (("fwd", 1), ("rev", -1)):
        d[f"all-fluxes-{n}"] = S.base(T="300+80*t*t", ics=ic, bcs=([left] + fl)[::o])
        d[f"all-sources-{n}"] = S.base(T="300+80*t*t", ics=ic, bcs=[left], traps=traps[:1], srcs=src[::o])
        d[f"all-implant-{n}"] = S.base(T="300+80*t*t", ics=ic, bcs=[left], srcs=imp[::o])
        d[f"all-traps-{n}"] = S.base(T="300+80*t*t", ics=ic, bcs=[left], traps=traps[::o])
        d[f"all-kinetics-{n}"] = S.base(T="300+80*t*t", ics=ic, bcs=[dict(S.KIN, prm=P, surf=[1]), dict(S.KIN, prm=Q, surf=[2])][::o])
        d[f"all-heat-{n}"] = S.base(
            ics=ic, mats=[S.therm(1)], T={"transient": True, "init": 300.0},
            bcs=([left, {"type": "dirichlet", "field": "T", "value": "300+90*t*t", "surf": [1]}] + hb)[::o], srcs=hs[::o])
        d[f"all-mixed-{n}"] = S.base(
            ics=ic, mats=[S.therm(1)], T={"transient": True, "init": 300.0}, traps=traps[::o],
            bcs=([left, {"type": "dirichlet", "field": "T", "value": "300+90*t*t", "surf": [1]}] + hb[:3] + fl[::2])[::o],
            srcs=(hs[:2] + src[:3])[::o])
    return d


SCHED = {
    "const": ("", {"initial_value": 0.25}),
    "grow": ("aa", dict(S.ADAPT, initial_value=0.1)),
    "shrink": ("bba", dict(S.ADAPT, initial_value=0.4)),
    "rej1": ("xa", dict(S.ADAPT, initial_value=0.4)),
    "rej2": ("axxa", dict(S.ADAPT, initial_value=0.2)),
    "miles": ("", dict(S.ADAPT, initial_value=0.3, milestones=[0.1, 0.55])),
}


def cases(tier):
    out = []
    for name, sp in inputs().items():
        tol = 5e-5 if name.startswith("implant-") else 5e-6
        todo = dict(SCHED)
        if tier == "thorough":
            for w in S.words("abx", 4):
                if "xxx" not in w:
                    todo[w] = (w, dict(S.ADAPT, initial_value=0.3))
        for s, (w, dt) in todo.items():
            out.append({"id": f"{name}-{s}", "group": name, "spec": dict(sp, dt=dt, final=0.6),
                        "script": w, "tol": tol, "cost": 2})
    out += S.in_units(out, tier == "thorough", 4)
    for name, sp in together().items():
        for s, (w, dt) in SCHED.items():
            if s == "rej2" or tier == "thorough" or name[:3] == "all" and s == "const":
                out.append({"id": f"{name}-{s}", "group": f"{name[:3]}{name[-3:]}" if name[:3] == "dc-" else name[:-4],
                            "spec": dict(sp, dt=dt, final=0.6),
                            "script": w, "tol": 5e-5 if "implant-" in name and name[:3] == "all" else 5e-6, "cost": 2})
    return out


def run(case):
    from mc.explore import run_model

    return run_model(case)
