"""Keeps the compiled modules of FEniCS by signature, within one process: only
saves the repeated look-ups in the on-disk cache."""


def install():
    import ffc
    import ffc.jitcompiler as jc
    import ufl_legacy as ufl

    real_jit, real_par = ffc.jit, ffc.default_jit_parameters
    mods, par = {}, real_par()

    def default_jit_parameters():
        return dict(par)

    def jit(o, parameters=None, indirect=False):
        if indirect:
            return real_jit(o, parameters, indirect)
        if isinstance(o, ufl.Form):
            k = ("form", o.signature())
        elif isinstance(o, ufl.FiniteElementBase):
            k = ("element", repr(o))
        else:
            return real_jit(o, parameters, indirect)
        k += (tuple(sorted((a, str(b)) for a, b in (parameters or {}).items())),)
        if k not in mods:
            p = dict(real_par(), **(parameters or {}))
            res = real_jit(o, p)
            pv = jc.validate_jit_parameters(p)
            _, name = jc.compute_jit_prefix(o, pv)
            mods[k] = (jc.jit_build(o, name, pv), name)
            return res
        m, name = mods[k]
        if k[0] == "form":
            return (jc._instantiate_form(m, name), m, name)
        return jc._instantiate_element_and_dofmap(m, name)

    ffc.jit = jit
    ffc.default_jit_parameters = default_jit_parameters
