"""Checks decided by running scenarios under the step monitor and judging the trace."""

import copy
import random

from .. import gen, oracles, runner
from ..build import Sim
from ..trace import Trace

# ---- workload mixes: (family, keyword arguments, weight)
TRANSPORT = [
    ("transport", {}, 4), ("transport", dict(ties=True), 2), ("transport", dict(cut=700), 1),
    ("transport", dict(delay=0.3, probes=0.2), 1), ("transport", dict(wx=0.2), 1),
    ("transport", dict(fleet=True), 0.2), ("transport", dict(fleet=True, ties=True), 0.1),
]
YARD = [
    ("yard", {}, 2), ("yard", dict(ties=True), 1), ("yard", dict(tight=True, budget=True), 3),
    ("yard", dict(tight=True, budget=True, ties=True), 1), ("yard", dict(tight=True, budget=False), 1),
    ("yard", dict(tight=True, budget=True, delay=0.3), 1),
    ("yard", dict(tight=True, budget=False, frac=True), 0.6), ("yard", dict(tight=True, budget=True, frac=True), 0.6),
    ("yard", dict(frac=True), 0.3),
    ("yard", dict(nr=True, delay=0.2, probes=0.2), 1), ("yard", dict(tight=True, cut=60), 1),
    ("scarce", {}, 0.7), ("scarce", dict(ties=True), 0.3), ("scarce", dict(delay=0.2, probes=0.2), 0.2),
]
HANDOVER = [("handover", {}, 3), ("handover", dict(ties=True), 1), ("handover", dict(cut=300), 1)]
STRUCT = [
    ("struct", {}, 4), ("struct", dict(ties=True), 2), ("struct", dict(cut=200), 1),
    ("struct", dict(delay=0.2), 1), ("struct", dict(wx=0.15, delay=0.15, probes=0.15), 1),
    ("struct", dict(depth=3, drivers=False), 1), ("web", {}, 0.5), ("web", dict(ties=False), 0.3),
    ("loops", {}, 0.7), ("loops", dict(ties=True), 0.3), ("long", {}, 0.3), ("long", dict(ties=True), 0.15),
]


def mix(jobs, parts, n, seed, tag):
    tot = sum(w for _, _, w in parts)
    for i, (fam, kw, w) in enumerate(parts):
        m = max(1, round(n * w / tot))
        jobs += [dict(fam=fam, kw=kw, seed=f"{seed}:{tag}:{i}:{j}") for j in range(m)]
    return jobs


def spec_of(job):
    if "spec" in job:
        return copy.deepcopy(job["spec"])
    return getattr(gen, job["fam"])(random.Random(job["seed"]), **job["kw"])


def strip(spec, keys):
    s = copy.deepcopy(spec)

    def go(n):
        for k in keys:
            n.pop(k, None)
        for c in n.get("subs", []):
            go(c)

    for n in s["acts"]:
        go(n)
    return s


def judge(spec, funcs):
    sim = Sim(spec).run()
    if sim.hang:
        return sim, None, None
    tr = Trace(sim)
    o = oracles.Oracle(tr)
    for f in funcs:
        getattr(oracles, f)(o)
    return sim, tr, o


def has(spec, keys):
    def go(n):
        return any(k in n for k in keys) or any(go(c) for c in n.get("subs", []))

    return any(go(n) for n in spec["acts"])


class SimCheck(runner.Check):
    facets = ()
    funcs = ("timing",)
    parts = ()
    attribute = ()  # decorations: a deviation that disappears without them is theirs
    main = ()  # counters that make an execution non-trivial
    n = dict(quick=6000, thorough=80000)
    technique = "runtime monitor of every simulation event; trace oracle on generated models"

    def jobs(self, tier, seed):
        return mix([], self.parts, self.n[tier], seed, self.id)

    def classify(self, o, issue):
        return None

    def work(self, job):
        spec = spec_of(job)
        funcs = ("refusal",) + tuple(self.funcs)
        if self.attribute and "timing" not in funcs:
            funcs += ("timing",)
        sim, tr, o = judge(spec, funcs)
        if o is None:
            return dict(inconclusive=f"wall-clock watchdog after {sim.env.nsteps} events")
        issues = []
        other = []
        for i in o.issues:
            if i.facet == "crash" or i.facet in self.facets:
                issues.append([self.classify(o, i), f"[{i.facet}] {i.what}"])
            else:
                other.append(i)
        if sim.steplimit:
            issues.append([None, f"[progress] no end after {sim.env.nsteps} events at time {sim.env.now}"])
        if other and self.attribute and not issues and has(spec, self.attribute):
            _, _, o2 = judge(strip(spec, self.attribute), funcs)
            if o2 is not None and not o2.issues:
                issues += [[None, f"[{i.facet}; not without {'/'.join(self.attribute)}] {i.what}"] for i in other]
        c = {k: o.cnt[k] for k in o.cnt}
        c["events"] = sim.env.nsteps
        c["max:events"] = sim.env.nsteps
        c["max:events without effect"] = sim.stalled
        c["registered later"] = len(spec.get("later", {}))
        c["log entries"] = sum(1 for e in sim.events if e[0] == "log")
        c["outcome:" + sim.outcome] = 1
        if tr.malformed:
            c["malformed logs"] = 1
        order = [(e[3], e[4], e[6]["ActivityState"]) for e in sim.events if e[0] == "log"]
        return dict(
            issues=issues, counters=c, sig=runner.sig(order),
            nontrivial=any(o.cnt[m] for m in self.main),
            sample=dict(job={k: job[k] for k in job if k != "spec"}, events=sim.env.nsteps,
                        end=sim.env.now, outcome=sim.outcome,
                        compared={m: o.cnt[m] for m in self.main},
                        log=[f"{e[2]:.6g} {e[4]} {e[6]['ActivityState']}" for e in sim.events if e[0] == "log"][:12])
            if any(o.cnt[m] for m in self.main) else None,
        )


def _def(pid, **k):
    k.setdefault("needs", k.get("main", ()))
    rule = k.pop("rule")
    return type(pid, (SimCheck,), dict(id=pid, rule=rule, **k))


GEN = ("Random models from the families transport (vessels cycling between shared sites), yard (competing "
       "transfers between co-located stores), handover (groups sharing and keeping resources) and struct (nested "
       "sequential/parallel/repeat/while trees with conditions), with ties, delays, weather, plugins and cut-offs. ")


class C02(SimCheck):
    id = "C02"
    facets = ("bounds", "refused")
    funcs = ("bounds", "timing", "completion")
    parts = TRANSPORT[:3] + YARD + [
        ("yard", dict(tight=True, budget=False), 3), ("yard", dict(tight=True, budget=False, ties=True), 2),
        ("yard", dict(tight=True, nr=True, budget=True), 1), ("yard", dict(tight=True, nr=True, budget=False), 1),
    ]
    main = needs = ("shift-contended",)
    needs = ("bound", "refusal", "shift-contended")
    rule = GEN + "Non-trivial: content or space changed while a transfer was waiting for its turn; distinct by order of all log entries."

    def jobs(self, tier, seed):
        j = super().jobs(tier, seed)
        return j + [dict(fam="d7", seed="d7", kw={}, spec=D7), dict(fam="d8", seed="d8", kw={}, spec=D8)]

    def classify(self, o, issue):
        if issue.facet == "bounds":
            return oracles.overlap_class(o, issue.what)
        return None


class C20(SimCheck):
    id = "C20"
    facets = ("idle",)
    funcs = ("timing", "completion")
    parts = TRANSPORT + YARD + HANDOVER + STRUCT[:2]
    main = ("ready",)
    needs = ("ready", "waited", "slot")
    rule = GEN + "Non-trivial: an activity that needs resources became ready."

    def jobs(self, tier, seed):
        return super().jobs(tier, seed) + [dict(fam="circle", seed="circle", kw={}, spec=CIRCLE)]

    def classify(self, o, issue):
        return "hold-and-wait" if issue.what.startswith("[hold-and-wait]") else None


CIRCLE = dict(
    objs=[
        dict(n="X", kind="site", xy=(4.0, 52.0), cap=100, lvl=50, nr=1),
        dict(n="A", kind="site", xy=(4.0, 52.0), cap=100, lvl=50, nr=1),
        dict(n="D", kind="site", xy=(4.0, 52.0), cap=100, lvl=0, nr=1),
        dict(n="C", kind="crane", xy=(4.0, 52.0), nr=1),
    ],
    acts=[
        dict(k="shift", n="s1", proc="C", orig="A", dest="D", dur=10, amount=10),
        dict(k="shift", n="s2", proc="C", orig="X", dest="A", dur=12, amount=10),
    ],
    reporters=[],
)

D7 = dict(
    objs=[
        dict(n="A", kind="site", xy=(4.0, 52.0), cap=100, lvl=100, nr=2),
        dict(n="B", kind="site", xy=(4.0, 52.0), cap=15, lvl=0, nr=2),
        dict(n="C1", kind="crane", xy=(4.0, 52.0), nr=1),
        dict(n="C2", kind="crane", xy=(4.0, 52.0), nr=1),
    ],
    acts=[
        dict(k="shift", n="s1", proc="C1", orig="A", dest="B", dur=10, amount=10),
        dict(k="shift", n="s2", proc="C2", orig="A", dest="B", dur=12, amount=10),
    ],
    reporters=[],
)

D8 = dict(
    objs=[
        dict(n="A", kind="site", xy=(4.0, 52.0), cap=100, lvl=15, nr=2),
        dict(n="B", kind="site", xy=(4.0, 52.0), cap=100, lvl=0, nr=1),
        dict(n="D", kind="site", xy=(4.0, 52.0), cap=100, lvl=0, nr=1),
        dict(n="C1", kind="crane", xy=(4.0, 52.0), nr=1),
        dict(n="C2", kind="crane", xy=(4.0, 52.0), nr=1),
    ],
    acts=[
        dict(k="shift", n="s1", proc="C1", orig="A", dest="B", dur=10, amount=10, probes=[dict(tag="p", prio=0, pre=5, post=0)]),
        dict(k="shift", n="s2", proc="C2", orig="A", dest="D", dur=12, amount=10, probes=[dict(tag="q", prio=0, pre=5, post=0)]),
    ],
    reporters=[],
)

CHECKS = {c.id: c for c in [
    C02,
    _def("C01", facets=("conserve", "malformed:shift"), funcs=("levels", "totals"),
         parts=TRANSPORT + YARD + HANDOVER + [("yard", dict(tight=True, nr=True), 2)],
         main=("level-change",), needs=("taken", "given", "level-change", "balance"),
         rule=GEN + "Non-trivial: container levels changed; distinct by order of all log entries."),
    _def("C03", facets=("reserve",), funcs=("reservations",), parts=TRANSPORT + YARD + HANDOVER[:2],
         main=("reservation",), needs=("reservation", "reservation-final"),
         rule=GEN + "Non-trivial: reservations were made and corrected."),
    _def("C05", facets=("excl", "fifo", "held"), funcs=("resources",), parts=TRANSPORT + YARD + HANDOVER,
         main=("res-contended",), needs=("res-state", "res-contended", "held"),
         rule=GEN + "Non-trivial: some request had to queue for a resource."),
    _def("C06", facets=("keep", "release"), funcs=("resources",), parts=HANDOVER * 2 + TRANSPORT + YARD[:2],
         main=("keep", "release"), needs=("keep", "release", "final"),
         rule=GEN + "Non-trivial: a resource was released at the end of an activity or kept over it."),
    _def("C07", facets=("move", "position", "malformed:move"), funcs=("timing", "positions"),
         parts=TRANSPORT + HANDOVER[:2] + [("moves", {}, 4)],
         main=("move",), needs=("move-speed", "move-distance", "arrive", "position-change"),
         rule=GEN + "Family moves: trips between random places at any fill degree and engine order. Non-trivial: a move was made."),
    _def("C09", facets=("processing",), funcs=("timing",), parts=TRANSPORT + YARD + HANDOVER,
         main=("rate", "rate-function"), needs=("processing", "rate", "rate-function"),
         rule=GEN + "Non-trivial: a transfer whose duration follows from its rate."),
    _def("C10", facets=("log", "stamp", "malformed:basic", "malformed:move", "malformed:shift", "malformed:seq",
                        "malformed:par", "malformed:rep", "malformed:while"),
         funcs=("activity_logs", "timing"), parts=STRUCT + TRANSPORT + YARD + HANDOVER,
         main=("execution",), needs=("entry", "execution", "sub-pairs"),
         rule=GEN + "Non-trivial: at least one complete execution in the logs."),
    _def("C11", facets=("objlog", "state"), funcs=("object_logs",), parts=TRANSPORT + YARD + HANDOVER + STRUCT[:3],
         main=("obj-entry",), needs=("obj-entry", "snapshot", "snapshot-level"),
         rule=GEN + "Non-trivial: object logs with entries."),
    _def("C12", facets=("basic", "once", "start", "wait", "start-body", "malformed:basic"), funcs=("timing",), parts=STRUCT + TRANSPORT[:2],
         main=("basic",), needs=("basic", "start"),
         rule=GEN + "Non-trivial: a basic activity was executed."),
    _def("C13", facets=("seq", "malformed:seq"), funcs=("timing",), parts=STRUCT + TRANSPORT,
         main=("seq-sub",), needs=("seq-sub",), rule=GEN + "Non-trivial: a sequence was executed."),
    _def("C14", facets=("par", "malformed:par"), funcs=("timing",), parts=STRUCT * 2 + YARD[:2],
         main=("par-sub",), needs=("par-sub",), rule=GEN + "Non-trivial: a parallel activity was executed."),
    _def("C15", facets=("rep", "malformed:rep"), funcs=("timing",), parts=STRUCT + TRANSPORT + HANDOVER[:1],
         main=("rep-count",), needs=("rep-count", "rep-sub"), rule=GEN + "Non-trivial: a repeat was executed."),
    _def("C16", facets=("while", "malformed:while"), funcs=("timing",), parts=STRUCT * 2 + TRANSPORT,
         main=("while-iter",), needs=("while-iter", "while-sub"),
         rule=GEN + "Non-trivial: the stop condition of a while was decided at the end of an iteration."),
    _def("C17", facets=("start", "wait", "start-body"), funcs=("timing",),
         parts=[(f, dict(k, se=0.6) if f == "struct" else k, w) for f, k, w in STRUCT] + TRANSPORT[:2],
         main=("start",), needs=("start",),
         rule=GEN + "Non-trivial: an activity with a start condition was triggered."),
    C20,
    _def("C22", n=dict(quick=1600, thorough=25000), facets=("weather",), funcs=("timing",), attribute=("wx",),
         parts=[("struct", dict(wx=0.7), 3), ("struct", dict(wx=0.7, ties=True), 1), ("transport", dict(wx=0.8), 2),
                ("yard", dict(wx=0.8), 1), ("struct", dict(wx=0.5, delay=0.3, probes=0.3), 1), ("storm", {}, 3)],
         main=("weather",), needs=("weather", "weather-wait"),
         rule=GEN + "Records are regular or irregular, longer or shorter than the simulation. Non-trivial: a weather limited activity was executed."),
    _def("C23", facets=("delay",), funcs=("timing",), attribute=("delay",),
         parts=[("struct", dict(delay=0.8), 3), ("struct", dict(delay=0.6, ties=True), 1), ("transport", dict(delay=0.8), 2),
                ("yard", dict(delay=0.8), 1), ("struct", dict(wx=0.3, delay=0.6), 1)],
         main=("delay",), needs=("delay",), rule=GEN + "Non-trivial: a delayed activity was executed."),
    _def("C24", facets=("plugin",), funcs=("timing",), attribute=("probes",),
         parts=[("struct", dict(probes=0.8), 3), ("struct", dict(probes=0.6, ties=True), 1), ("transport", dict(probes=0.8), 2),
                ("yard", dict(probes=0.8), 1), ("struct", dict(wx=0.3, delay=0.3, probes=0.6), 1)],
         main=("plugin",), needs=("plugin",),
         rule=GEN + "Recording plugins with random priorities and processing times. Non-trivial: a plugin ran."),
]}
