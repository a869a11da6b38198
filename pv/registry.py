"""All contracts, and the jobs (contract, world) that belong to one property."""
import importlib

MODULES = ["c_scalar", "c_utils", "c_registers", "c_meta", "c_subscript", "c_unusable", "c_decor", "c_origins", "c_display", "c_subst", "c_config", "c_shape"]
MODS = ["asta.constants", "asta.utils", "asta.scalar", "asta.origins", "asta.decorators", "asta.config",
        "asta.array", "asta.switchboard", "asta.unusable", "asta.dims", "asta.shapes", "asta.substitution"]


def contracts():
    out = []
    for m in MODULES:
        out += [(m, c) for c in importlib.import_module(m).ALL]
    return out


def jobs(prop, tier):
    """(module, class, world) for every contract the property rests on."""
    out = []
    for m, c in contracts():
        if prop in c.props:
            ws = c.worlds
            for w in ws:
                out.append((m, c.__name__, w))
    return out


def install(w):
    for m in MODULES:
        for d in getattr(importlib.import_module(m), "DEPS", []):
            w.contracts[d.qual] = d(w)
