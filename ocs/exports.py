"""Independent reading of logbooks, to judge exports and charts against."""

import random

from . import gen
from .build import Sim

FAMS = [
    ("transport", {}), ("transport", dict(ties=True)), ("transport", dict(multi=True)), ("transport", dict(cut=700)),
    ("yard", {}), ("yard", dict(ties=True)), ("handover", {}), ("struct", {}), ("struct", dict(ties=True)),
    ("struct", dict(cut=150)), ("struct", dict(wx=0.2, delay=0.3)), ("transport", dict(delay=0.4, probes=0.2)),
]


def run(job):
    fam, kw = FAMS[job["f"]]
    return Sim(getattr(gen, fam)(random.Random(job["seed"]), **kw)).run()


def jobs(n, seed):
    return [dict(f=i % len(FAMS), seed=f"{seed}:{i}") for i in range(n)]


def part(e):
    lab = e["ActivityLabel"] or {}
    return lab.get("ref") if lab.get("type") == "subprocess" else None


def executions(logbook):
    """[(activity id, start entry, stop entry or None)] in the order of their starts."""
    out, open_ = [], {}
    for e in logbook:
        if e["ActivityState"] == "START":
            row = [e["ActivityID"], e, None]
            out.append(row)
            open_.setdefault((e["ActivityID"], part(e)), []).append(row)
        elif e["ActivityState"] == "STOP":
            rows = open_.get((e["ActivityID"], part(e)))
            if not rows:
                return None
            rows.pop(0)[2] = e
    return out


def logged(sim):
    for kind, d in (("activity", sim.acts), ("object", sim.objs), ("reporter", sim.reporters)):
        for n, o in d.items():
            yield kind, n, o
