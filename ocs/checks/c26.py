"""C26: dependencies between recorded activities, by both methods."""

import collections
import random

from .. import runner
from ..boot import DependenciesFromRecordedActivities, DependenciesFromSimpy, pd, simpy
from ..trace import EPOCH
from .c25 import FAMS, dt, intervals, simulate


def sec(t):
    return (t - EPOCH).total_seconds()


class CHECK(runner.Check):
    id = "C26"
    technique = "oracle over dependency lists, recomputed from logbooks and from a recorder of simpy's scheduling"
    rule = ("Complete simulations of all families in the tracing environment. Dependencies from recorded activities are "
            "recomputed from the object logs; dependencies from the trace from the calls of schedule() recorded beneath "
            "the tracing environment. Non-trivial: a dependency was found; distinct by the dependencies.")
    needs = ("recorded dependencies", "waiting rule", "trace dependencies", "not from the start", "waits set before")

    def jobs(self, tier, seed):
        return [dict(f=i % len(FAMS), seed=f"{seed}:C26:{i}") for i in range(dict(quick=900, thorough=12000)[tier])]

    def work(self, job):
        sim = simulate(job, env="cp")
        if sim.hang:
            return dict(inconclusive="wall-clock watchdog")
        if "'ev':" in repr(sim.spec["acts"]):  # events of the model's own, outside of activities
            return dict(counters={"own events": 1})
        cnt = collections.Counter(events=sim.env.nsteps)
        logged = [o for o in sim.objs.values() if o.logbook]
        if sim.outcome != "done" or not logged or any(intervals(o.logbook) is None for o in [*logged, *sim.acts.values()]):
            return dict(counters={"not complete": 1})
        issues = []

        def bad(t, key=None):
            issues.append([key, t])

        names = {a.id: n for n, a in sim.acts.items()}
        objs = list(sim.objs.values())
        more = [o for o in sim.reporters.values() if intervals(o.logbook)]
        if more:
            cnt["reporters"] += len(more)
            objs += more
        random.Random(job["seed"]).shuffle(objs)
        sigs = self.recorded(sim, objs, names, bad, cnt) + self.traced(sim, objs, names, bad, cnt)
        return dict(issues=issues[:6], counters=dict(cnt), nontrivial=bool(sigs), sig=runner.sig(sorted(map(repr, sigs))),
                    sample=dict(job=job, dependencies=len(sigs)))

    def table(self, cp):
        """identifier -> (activity id, start, end, states) """
        out = {}
        for x in cp.get_recorded_activity_df().itertuples(index=False):
            k = (x.ActivityID, dt(x.start_time), dt(x.end_time))
            out.setdefault(x.cp_activity_id, k)
        return out

    def show(self, names, d):
        return [tuple(f"{names.get(i, i)} {a}..{b}" for i, a, b in p) for p in list(d)[:3]]

    def recorded(self, sim, objs, names, bad, cnt):
        cp = DependenciesFromRecordedActivities(sim.env, objs, list(sim.tops))
        ids = self.table(cp)
        lst = cp.get_dependency_list()
        got = collections.Counter((ids[a], ids[b]) for a, b in lst)
        rows = [(o.name, (i, a, b), st) for o in objs for i, _, a, b, st in intervals(o.logbook)]
        ends = collections.defaultdict(list)
        for o, k, st in rows:
            ends[k[2]].append((o, k, st))
        want = set()
        for o, k, _ in rows:
            here = [r for r in ends[k[1]] if r[0] == o]
            if any(st == "WAITING" for _, _, st in here):
                cnt["waiting rule"] += 1
                here = ends[k[1]]
            want |= {(j, k) for _, j, _ in here if j != k}
        cnt["recorded dependencies"] += len(want)
        if set(got) != want:
            bad(f"recorded activities: {len(got)} dependencies, {len(want)} expected; unexpected "
                f"{self.show(names, set(got) - want)}, missing {self.show(names, want - set(got))}")
        if any(c > 1 for c in got.values()):
            bad("recorded activities: a dependency is listed twice")
        return sorted((names[a[0]], sec(a[2]), names[b[0]]) for a, b in want)

    def traced(self, sim, objs, names, bad, cnt):
        env = sim.env
        cp = DependenciesFromSimpy(env, objs, list(sim.tops))
        try:
            lst = cp.get_dependency_list()
        except Exception as e:  # noqa: BLE001
            bad(f"trace: {type(e).__name__}: {str(e)[:200]}")
            return []
        ids = self.table(cp)
        by = collections.defaultdict(set)
        structural = {a.id for a in sim.acts.values() if hasattr(a, "sub_processes")}
        for a in [*sim.acts.values(), *objs]:
            for i, _, t0, t1, st in intervals(a.logbook):
                if st == "WAITING" or i not in structural:  # structural activities only wait
                    by[i].add((i, t0, t1))

        done = {n: t for _, t, n, _, _, _ in env.seen}
        work = {}
        for n, (e, _, d) in enumerate(env.sched):
            if isinstance(e, simpy.Timeout) and d > 0 and n in done:
                c = [k for k in by[e.value] if k[1] < k[2] and abs(sec(k[2]) - done[n]) < 2e-6]
                if len(c) == 1:
                    work[n] = c[0]
                else:  # a point in time for which nobody waited
                    cnt["unrecorded timeouts"] += 1
        want = set()
        for n, k in work.items():
            p = env.sched[n][1]
            while p is not None and p not in work:
                p = env.sched[p][1]
            if p is not None:
                if abs(done[n] - env.sched[n][2] - sec(k[1])) < 1e-5:
                    want.add((work[p], k))
                else:  # the wait for a point in time that was set before
                    cnt["waits set before"] += 1
        got = {(ids[a], ids[b]) for a, b in lst}
        cnt["trace dependencies"] += len(want)
        if got != want:
            bad(f"trace: {len(got)} dependencies, {len(want)} expected; unexpected "
                f"{self.show(names, got - want)}, missing {self.show(names, want - got)}")
        for a, b in got:
            if a[2] != b[1]:
                bad(f"trace: {names[b[0]]} starts {b[1]}, its cause {names[a[0]]} ends {a[2]}")
        into = collections.Counter(b for _, b in got)
        for n, a in sim.acts.items():
            if sim.nodes[n]["k"] in ("basic", "move", "shift"):
                for i, part, t0, t1, st in intervals(a.logbook):
                    if st == "ACTIVE" and t0 < t1 and all(abs(sec(t0) - t) > 2e-6 for _, t in sim.registered.values()):
                        cnt["not from the start"] += 1
                        if into[(i, t0, t1)] != 1:
                            bad(f"trace: {n} from {t0} to {t1} has {into[(i, t0, t1)]} causes")
        return sorted((names[a[0]], sec(a[2]), names[b[0]]) for a, b in want)
