"""All contracts, by property."""
from . import tables, kernels, conns, stiff, pen, pmeth, pload, pfield, passy, pbay, psave, mem, pstudy


def all_contracts():
    r = []
    for mod in (tables, kernels, conns, stiff, pen, pmeth, pload, pfield, passy, pbay, psave, mem, pstudy):
        r += mod.all_contracts()
    return r


def by_name():
    return {c.name: c for c in all_contracts()}


def for_property(p):
    return [c for c in all_contracts() if p in c.props]
