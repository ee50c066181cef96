"""C34: ill-formed conditions and parameters are refused."""

import collections
import copy
import random

from openclsim.core.log import LogState

from .. import gen, runner
from ..boot import DependenciesFromRecordedActivities, core, model, plugins, shapely, simpy
from ..build import Sim

FAMS = [("struct", {}), ("struct", dict(ties=True)), ("struct", dict(depth=3, se=0.4)), ("loops", {}), ("transport", {}),
        ("transport", dict(mode="while")), ("yard", {}), ("web", {})]


class CHECK(runner.Check):
    id = "C34"
    technique = "monitor of complete models in which one condition is made ill-formed; constructors called with refused values"
    rule = ("Random models that complete, with an ill-formed member put at any depth of the start condition of an activity or "
            "of the stop condition of a loop that runs in the model; transfers without duration or known phase; and parameters that contradict each other. Non-trivial: "
            "the ill-formed condition is one of several members; distinct by model, place and form.")
    needs = ("start conditions", "stop conditions", "nested", "constructors", "sub-activities", "phases")

    def jobs(self, tier, seed):
        return [dict(f=i % len(FAMS), seed=f"{seed}:C34:{i}") for i in range(dict(quick=1600, thorough=25000)[tier])]

    def forms(self, r, sim):
        """Things that are no condition."""
        obj = [o for n, o in sim.objs.items() if hasattr(o, "container")]
        name = r.choice(list(sim.acts))
        out = [{"type": "activities", "state": "done", "name": name}, {}, {"state": "done", "name": name},
               {"type": "activity", "state": "started", "name": name}, {"type": "activity", "name": name},
               {"type": "activity", "state": "done", "name": "nobody"}, {"type": "activity", "state": "done", "ID": "nobody"},
               {"type": "activity", "state": "done"}, {"type": "time"}, {"type": "time", "start_time": "soon"}, "done", 5, 0, True, False,
               None, ("and",), (), ({"type": "time", "start_time": 0},), 2.5, {"xor": [{"type": "time", "start_time": 0}]}, object()]
        if obj:
            o = r.choice(obj)
            out += [{"type": "container", "concept": o, "state": "half"}, {"type": "container", "concept": o, "state": "ge"},
                    {"type": "container", "concept": o, "state": "eq", "level": 1}, {"type": "container", "concept": o, "level": 1},
                    {"type": "container", "state": "full"}, {"type": "container", "concept": o, "state": "lt", "level": None},
                    {"type": "container", "concept": None, "state": "gt", "level": 0}]
        return r.choice(out)

    def wrap(self, r, bad, have):
        """The ill-formed member somewhere among members that are fine, some of which have occurred already."""
        e = {"raw": 1}
        deep = r.choice([0, 0, 1, 1, 2, 3])
        good = lambda: copy.deepcopy(have) if have is not None and r.random() < 0.6 else {"t": r.choice([0, 5])}  # noqa: E731
        if deep == 0 and bad is None:
            deep = 1  # no condition at all
        for _ in range(deep):
            xs = [good() for _ in range(r.randint(0, 3))]
            xs.insert(r.randint(0, len(xs)), e)
            e = r.choice([xs, {"and": xs}, {"or": xs}, {"or": xs}])
        return e, deep

    def work(self, job):
        r = random.Random(job["seed"] + "x")
        fam, kw = FAMS[job["f"]]
        issues, cnt = [], collections.Counter()

        def bad(t):
            issues.append([None, t])

        self.constructors(r, bad, cnt)
        spec = getattr(gen, fam)(random.Random(job["seed"]), **kw)
        good = Sim(spec).run()
        if good.hang:
            return dict(inconclusive="wall-clock watchdog")
        if good.outcome != "done":
            return dict(issues=issues, counters=dict(cnt, **{"not complete": 1}))
        nodes = [n for n in gen.walk(spec["acts"]) if any(e["ActivityState"] == "START" for e in good.acts[n["n"]].logbook)]
        if not nodes:
            return dict(issues=issues, counters=dict(cnt))
        shifts = [n for n in nodes if n["k"] == "shift"]
        if shifts and r.random() < 0.3:
            return self.phase(r, spec, r.choice(shifts), issues, cnt)
        loops = [n for n in nodes if n["k"] == "while"]
        key = "se"
        n = r.choice(nodes)
        if loops and r.random() < 0.4:
            n, key = r.choice(loops), "cond"
        what = self.forms(r, good)
        have = n.get(key)
        n[key], deep = self.wrap(r, what, have)
        sim = _Sim(spec, what).run()
        if sim.hang:
            return dict(inconclusive="wall-clock watchdog")
        cnt["start conditions" if key == "se" else "stop conditions"] += 1
        cnt["nested"] += deep > 0
        cnt["sub-activities"] += sim.parent[n["n"]] is not None
        label = f"{what!r} within {deep} levels of the {'start' if key == 'se' else 'stop'} condition of {n['n']}"
        if sim.outcome != "error":
            bad(f"{label}: not refused, the run was {sim.outcome}")
        kids = [n["n"]] if key == "se" else [c["n"] for c in gen.walk(n["subs"])]
        for k in kids:
            if any(e["ActivityState"] == "START" for e in sim.acts[k].logbook):
                bad(f"{label}: {k} was started")
                break
        cnt["events"] += sim.env.nsteps
        return dict(issues=issues[:4], counters=dict(cnt), nontrivial=deep > 0,
                    sig=runner.sig([job["seed"], n["n"], key, deep, str(type(what)), str(sorted(what) if isinstance(what, dict) else 0)]),
                    sample=dict(job=job, form=repr(what)[:80], error=repr(sim.error)[:120]))

    def phase(self, r, spec, n, issues, cnt):
        """A transfer of which neither the duration nor a known phase is given."""
        n.pop("dur", None)
        n["phase"] = r.choice([None, "", "load", "Loading", "unload", "both", "shift", True])
        sim = Sim(spec).run()
        if sim.hang:
            return dict(inconclusive="wall-clock watchdog")
        cnt["phases"] += 1
        cnt["events"] += sim.env.nsteps
        label = f"{n['n']} without duration and with phase {n['phase']!r}"
        if sim.outcome != "error":
            issues.append([None, f"{label}: not refused, the run was {sim.outcome}"])
        if any(e["ActivityState"] == "STOP" for e in sim.acts[n["n"]].logbook):
            issues.append([None, f"{label}: was carried out"])
        return dict(issues=issues, counters=dict(cnt), nontrivial=True, sig=runner.sig(["phase", spec["acts"], n["n"]]))

    def refused(self, bad, cnt, what, f):
        cnt["constructors"] += 1
        try:
            f()
        except Exception:  # noqa: BLE001
            return
        bad(f"{what} was accepted")

    def constructors(self, r, bad, cnt):
        env = simpy.Environment()
        lim = r.choice([0, 0.0, 1.5, -1])
        ok = dict(name="w", condition="Hs", window_length=r.choice([0, 10]))
        self.refused(bad, cnt, "a weather criterion without limits", lambda: plugins.WeatherCriterion(**ok))
        self.refused(bad, cnt, f"a weather criterion with both limits ({lim}, 0)",
                     lambda: plugins.WeatherCriterion(maximum=lim, minimum=0, **ok))
        self.refused(bad, cnt, f"a weather criterion with both limits (0, {lim})",
                     lambda: plugins.WeatherCriterion(maximum=0, minimum=lim, **ok))
        for k in (dict(maximum=lim), dict(minimum=lim)):
            w = plugins.WeatherCriterion(**k, **ok)
            if (w.maximum, w.minimum) != (k.get("maximum"), k.get("minimum")):
                bad(f"a weather criterion with {k} has limits {w.maximum}, {w.minimum}")
        Multi = type("Multi", (core.Identifiable, core.HasMultiContainer), {})
        item = dict(id="sand", capacity=5, level=0)
        key = r.choice(list(item))
        self.refused(bad, cnt, f"a kind of content without {key}",
                     lambda: Multi(env=env, name="m", initials=[item, {k: v for k, v in item.items() if k != key}]))
        self.refused(bad, cnt, "a kind of content called x_reservations",
                     lambda: Multi(env=env, name="m", initials=[dict(item, id="x_reservations")]))
        o = Multi(env=env, name="m", initials=[item])
        op = r.choice(["eq", "full", "ne", "", None])
        self.refused(bad, cnt, f"a container event with operator {op}",
                     lambda: o.container.get_container_event(level=0, operator=op, id_="sand"))
        self.refused(bad, cnt, "an object with two ids", lambda: core.Identifiable(name="a", id="x", ID="y"))
        Logged = type("Logged", (core.Identifiable, core.Log), {})
        g = Logged(env=env, name=r.choice(["g", "h"]))
        lab = r.choice([{"type": "plugin"}, {"ref": "x"}, {"type": None, "ref": "x"}, {"type": "plugin", "ref": None}])
        self.refused(bad, cnt, f"a log entry with label {lab}", lambda: g.log_entry_v1(0, "a", LogState.START, activity_label=lab))
        self.refused(bad, cnt, "a log entry with state 'START'", lambda: g.log_entry_v1(0, "a", "START"))
        if g.logbook:
            bad("a refused log entry is in the log")
        h = Logged(env=env, name=g.name)
        for x in (g, h):
            x.log_entry_v1(0, "a", LogState.START)
            x.log_entry_v1(1, "a", LogState.STOP)
        act = model.BasicActivity(env=env, registry={}, name="a", id="a", duration=1)
        self.refused(bad, cnt, "an analysis of two objects of one name",
                     lambda: DependenciesFromRecordedActivities(env, [g, h], [act]).get_recorded_activity_df())


class _Sim(Sim):
    """The model with the ill-formed member in its place, speaking of objects of this model."""

    def __init__(self, spec, what):
        self.what = what
        super().__init__(spec)

    def expr(self, e):
        if isinstance(e, dict) and "raw" in e:
            w = self.what
            if isinstance(w, dict) and w.get("concept") is not None:
                w = dict(w, concept=self.objs[w["concept"].name])
            return w
        return super().expr(e)
