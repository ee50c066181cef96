"""The checks, by property id."""


def load(pid):
    from . import sim

    if pid in sim.CHECKS:
        return sim.CHECKS[pid]()
    import importlib

    mod = importlib.import_module(f".{pid.lower()}", __name__)
    return mod.CHECK()
