"""The simulations of all families, as generated by the sensitivity checks.

``capture(sub, case)`` runs the set-up part of a sensitivity check (C01-C07) on a generated case and returns what it would
have judged: a factory of fresh simulations, a model, a perturbation and the comparison settings.
"""

import importlib

from . import sens


class Captured(BaseException):
    pass


class Setup:
    def __init__(self, make, m, v, r, what, kw):
        self.make, self.m, self.v, self.r, self.what, self.kw = make, m, v, r, what, kw
        self.fields_arg = kw.get("fields_arg", True)
        self.J = kw.get("J")
        self.JtJ = kw.get("JtJ", False)


def sub_of(modname, subname):
    mod = importlib.import_module("checks." + modname)
    return next(s for s in mod.SUBS if s.name == subname)


def capture(sub, case):
    """None where the check decides before it judges sensitivities (e.g. nothing to invert for)"""

    def spy(make, m, v, r, what, **kw):
        raise Captured(Setup(make, m, v, r, what, kw))

    old = sens.judge
    sens.judge = spy
    try:
        sub.check(case)
    except Captured as c:
        return c.args[0]
    finally:
        sens.judge = old
    return None


# name -> (module, sub-check)
FAMILIES = {
    "dc3d": ("c01_static", "dc3d"),
    "dc2d": ("c01_static", "dc2d"),
    "dc1d": ("c01_static", "dc1d"),
    "ip": ("c01_static", "ip"),
    "sip": ("c01_static", "sip"),
    "sp": ("c01_static", "sp"),
    "fdem": ("c02_fdem", "cartesian"),
    "fdem_sym": ("c02_fdem", "cyl_symmetric"),
    "fdem_cyl": ("c02_fdem", "cyl_3d"),
    "tdem": ("c03_tdem", "cartesian"),
    "tdem_sym": ("c03_tdem", "cyl_symmetric"),
    "mt_recursive": ("c04_nsem", "recursive_1d"),
    "mt_1d": ("c04_nsem", "pde_1d"),
    "mt_2d": ("c04_nsem", "pde_2d"),
    "mt_3d": ("c04_nsem", "pde_3d"),
    "em1d_f": ("c05_em1d", "frequency"),
    "em1d_t": ("c05_em1d", "time"),
    "gravity": ("c06_pf", "gravity"),
    "gravity_layer": ("c06_pf", "gravity-layer"),
    "magnetics": ("c06_pf", "magnetics"),
    "magnetics_layer": ("c06_pf", "magnetics-layer"),
    "magnetics_fv": ("c06_pf", "differential"),
    "richards": ("c07_flow_rays", "richards"),
    "rays": ("c07_flow_rays", "rays"),
    "linear": ("c07_flow_rays", "linear"),
}
