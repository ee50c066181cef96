"""Run scenarios given on stdin and print what each came to, with ids resolved to names.

Used in processes of their own, with their own hash seed."""

import hashlib
import json
import random
import sys

from . import gen
from .build import Sim
from .trace import ts


def result(sim):
    """Everything that can be seen of a finished run, with ids replaced by names."""
    names = {a.id: n for n, a in sim.acts.items()}
    names.update({a.id: n for n, a in sim.reporters.items()})
    names.update({o.id: n for n, o in sim.objs.items()})

    def entry(e):
        st = []
        for k, v in sorted(e["ObjectState"].items()):
            st.append((k, v.wkt if hasattr(v, "wkt") else sorted(v.items()) if isinstance(v, dict) else v))
        lab = [(k, names.get(v, v)) for k, v in sorted((e["ActivityLabel"] or {}).items())]
        return (e["Timestamp"].isoformat(), names.get(e["ActivityID"], e["ActivityID"]), e["ActivityState"], st, lab)

    out = {
        "end": (sim.env.now, sim.outcome, type(sim.error).__name__),
        "levels": sorted(sim.levels().items()),
        "positions": sorted((n, o.geometry.wkt) for n, o in sim.objs.items()),
    }
    for kind, objs in (("activity", sim.acts), ("object", sim.objs), ("reporter", sim.reporters)):
        for n, o in objs.items():
            out[f"log of {kind} {n}"] = [entry(e) for e in o.logbook]
    return out


def outcome(job, salt):
    """{component: digest} of one run; ids are replaced by names."""
    spec = getattr(gen, job["fam"])(random.Random(job["seed"]), **job["kw"])
    if salt is not None:
        spec["salt"] = salt
        for o in spec["objs"]:
            o["id"] = hashlib.md5(f"{salt}:{o['n']}".encode()).hexdigest()
    sim = Sim(spec)
    junk = [object() for _ in range(hash(salt) % 997)]
    sim.run()
    del junk
    if sim.hang:
        return None
    out = result(sim)
    dig = {k: hashlib.md5(repr(v).encode()).hexdigest() for k, v in out.items()}
    dig["#entries"] = sum(len(v) for k, v in out.items() if k.startswith("log"))
    dig["#events"] = sim.env.nsteps
    return dig


def main():
    req = json.load(sys.stdin)
    print(json.dumps([outcome(j, req["salt"]) for j in req["jobs"]]))


if __name__ == "__main__":
    main()
