"""C27: critical activities against an independent computation of the longest paths."""

import collections
import datetime
import random

from .. import runner
from ..boot import DependenciesFromRecordedActivities, DependenciesFromSimpy, SimulationGraph, pd
from ..trace import EPOCH
from .c25 import FAMS, intervals, simulate

TIGHT, LOOSE = 1e-3, 0.05  # s: a path this close to the longest has to be / may be critical


def longest(acts, deps, tight, loose):
    """acts {key: (start, end)}, deps {(cause, effect)} -> (length of the longest path,
    [(keys that must be critical, keys that may be critical) for every end time of a longest path])."""
    pred, succ = collections.defaultdict(list), collections.defaultdict(list)
    for a, b in deps:
        pred[b].append(a)
        succ[a].append(b)
    order = sorted(acts, key=lambda k: acts[k])
    up, out = {}, []
    for k in order:
        up[k] = acts[k][1] - acts[k][0] + max([up[p] for p in pred[k]], default=0)
    top = max(up.values(), default=0)
    for te in sorted({acts[k][1] for k in order if up[k] >= top - loose}):
        down, must, may = {}, set(), set()
        for k in reversed(order):
            rest = [down[s] for s in succ[k]] + ([0] if acts[k][1] == te else [])
            down[k] = acts[k][1] - acts[k][0] + max(rest, default=-float("inf"))
            through = up[k] + max(rest, default=-float("inf"))
            if through >= top - tight:
                must.add(k)
            if through >= top - loose:
                may.add(k)
        out.append((must, may))
    return top, out


class CHECK(runner.Check):
    id = "C27"
    technique = "oracle over the critical set and the maximum duration, recomputed by longest paths from both ends"
    rule = ("Random consistent sets of activities and dependencies with ties, near ties and parallel paths, in numbers and "
            "dates; inconsistent ones; and complete simulations of all families with both kinds of dependencies. "
            "Non-trivial: some but not all activities are critical; distinct by the critical set.")
    needs = ("random graphs", "graphs with parallel longest paths", "simulated graphs", "rejected", "graphs with tiny steps", "zero durations", "chart rows")

    def jobs(self, tier, seed):
        n = dict(quick=480, thorough=8000)[tier]
        return [dict(f=i // 2 % len(FAMS), kind="sim" if i % 2 else "dag", seed=f"{seed}:C27:{i}") for i in range(n)]

    def work(self, job):
        issues, cnt, sigs = [], collections.Counter(), set()

        def bad(t, key=None):
            issues.append([key, t])

        if job["kind"] == "dag":
            for i in range(25):
                self.dag(random.Random(f"{job['seed']}:{i}"), bad, cnt, sigs)
        else:
            r = self.sim(job, bad, cnt, sigs)
            if r:
                return r
        return dict(issues=issues[:6], counters=dict(cnt), nontrivial=bool(sigs), sigs=sorted(sigs),
                    sample=dict(job=job, counters=dict(cnt)))

    # ------------------------------------------------------------------- random graphs
    def dag(self, r, bad, cnt, sigs):
        unit = r.choice([1, 1, 1, 0.25, 60, 3600, 0.1])
        n, horizon = r.randint(1, 14), r.randint(2, 9)
        acts = {}
        for i in range(n):
            a = r.randint(0, horizon - 1)
            b = r.randint(a, horizon) if r.random() < 0.15 else r.randint(a + 1, horizon)
            acts[f"a{i}"] = (a, b)
        dens = r.choice([0.2, 0.6, 0.9, 1])
        deps = [(x, y) for x in acts for y in acts if x != y and acts[x][1] == acts[y][0] and r.random() < dens]
        r.shuffle(deps)
        dated = r.random() < 0.5
        grid = [0.0]
        tiny = r.random() < 0.3  # steps next to nothing between the others
        for _ in range(horizon):
            grid.append(grid[-1] + (r.choice([5e-4, 8e-4]) if tiny and r.random() < 0.5 else unit))

        def t(v):
            return EPOCH + datetime.timedelta(seconds=grid[v]) if dated else float(grid[v])

        keys = [*acts, *[k for k in acts if r.random() < 0.4]]  # rows of several objects
        r.shuffle(keys)
        called = {k: r.choice([k, "sail", "load"]) for k in acts}  # several activities may have one name
        df = pd.DataFrame([
            dict(Activity=called[k], ActivityID=k, SimulationObject=f"o{i}", start_time=t(acts[k][0]), end_time=t(acts[k][1]),
                 duration=t(acts[k][1]) - t(acts[k][0]), state=r.choice(["ACTIVE", "WAITING"]), cp_activity_id=k)
            for i, k in enumerate(keys)])
        real = {k: v for k, v in acts.items() if v[0] < v[1]}
        cnt["zero durations"] += len(acts) - len(real)
        edges = {(x, y) for x, y in deps if x in real and y in real}
        if r.random() < 0.15 and len(real) > 1:  # a dependency over a gap
            x, y = r.sample(sorted(real), 2)
            if abs(grid[acts[x][1]] - grid[acts[y][0]]) >= (1 if dated else 0.01):
                try:
                    SimulationGraph(df, deps + [(x, y)])
                    bad(f"a dependency from {acts[x]} to {acts[y]} on {grid} was accepted")
                except ValueError:
                    cnt["rejected"] += 1
        if len(acts) > len(real) and not real:
            return
        try:
            g = SimulationGraph(df, list(deps))
            got = g.get_list_critical_activities()
            again = g.get_list_critical_activities()
        except Exception as e:  # noqa: BLE001
            bad(f"activities {acts}, grid {grid}, dependencies {deps}: {type(e).__name__}: {str(e)[:200]}")
            return
        cnt["random graphs"] += 1
        cnt["graphs with tiny steps"] += tiny
        secs = {k: (grid[a], grid[b]) for k, (a, b) in real.items()}
        top, sets = longest(secs, edges, 1e-5, 2e-3 if tiny else 1e-5)
        if abs(g.max_duration - top) > (1e-4 if tiny else 2e-3):
            bad(f"activities {secs}, dependencies {deps}: maximum duration {g.max_duration}, not {top}")
        if g.n_activities != len(real):
            bad(f"the graph has {g.n_activities} activities, not {len(real)}")
        if sorted(again) != sorted(got) or len(set(got)) != len(got):
            bad(f"critical activities {sorted(got)}, then {sorted(again)}")
        if all(not must <= set(got) <= may for must, may in sets):
            bad(f"activities {secs}, dependencies {deps}: critical {sorted(got)}, not "
                f"{' or '.join(str(sorted(s)) for s, _ in sets)}")
        if sum(1 for k in got if real[k][1] == max(real[j][1] for j in got)) > 1:
            cnt["graphs with parallel longest paths"] += 1
        if set(got) != set(real):
            sigs.add(runner.sig(sorted((acts[k], k in got) for k in real)))

    # --------------------------------------------------------------------- simulations
    def sim(self, job, bad, cnt, sigs):
        r = random.Random(job["seed"] + "x")
        sim = simulate(job, env="cp")
        if sim.hang:
            return dict(inconclusive="wall-clock watchdog")
        objs = [o for o in sim.objs.values() if o.logbook]
        if sim.outcome != "done" or not objs or "'ev':" in repr(sim.spec["acts"]) or any(
                intervals(o.logbook) is None for o in [*objs, *sim.acts.values()]):
            return dict(counters={"not complete": 1})
        r.shuffle(objs)
        for cls in (DependenciesFromRecordedActivities, DependenciesFromSimpy):
            cp = cls(sim.env, objs, list(sim.tops))
            try:
                df = cp.get_critical_path_df()
            except Exception as e:  # noqa: BLE001
                bad(f"{cls.__name__}: {type(e).__name__}: {str(e)[:200]}")
                continue
            self.judge(cls.__name__, cp, df, bad, cnt, sigs)

    def judge(self, label, cp, df, bad, cnt, sigs):
        def sec(t):
            return (t.to_pydatetime() - EPOCH).total_seconds()

        rows = list(cp.get_recorded_activity_df().itertuples(index=False))
        acts = {x.cp_activity_id: (sec(x.start_time), sec(x.end_time)) for x in rows}
        real = {k: v for k, v in acts.items() if v[1] - v[0] >= 0.0005}
        cnt["zero durations"] += len(acts) - len(real)
        deps = {(a, b) for a, b in cp.get_dependency_list() if a in real and b in real}
        top, sets = longest(real, deps, TIGHT, LOOSE)
        crit = {x.cp_activity_id for x in df.itertuples(index=False) if x.is_critical}
        shown = collections.Counter((x.SimulationObject, x.Activity, x.cp_activity_id) for x in df.itertuples(index=False))
        on_object = {x.cp_activity_id for x in rows if x.SimulationObject != "Activity"}
        want = collections.Counter()
        for x in rows:
            if x.SimulationObject != "Activity" or (x.cp_activity_id in crit and x.cp_activity_id not in on_object):
                want[x.SimulationObject, x.Activity, x.cp_activity_id] += 1
        if shown != want:
            bad(f"{label}: the critical path table has {sum(shown.values())} rows, expected {sum(want.values())}; "
                f"unexpected {list(shown - want)[:3]}, missing {list(want - shown)[:3]}")
        both = {k for k in crit if len({x.is_critical for x in df.itertuples(index=False) if x.cp_activity_id == k}) > 1}
        if both:
            bad(f"{label}: {both} is critical in some of its rows only")
        if sets and all(not (must <= crit <= may) for must, may in sets):
            must, may = min(sets, key=lambda s: len(s[0] - crit) + len(crit - s[1]))
            bad(f"{label}: critical although not on a longest path ({top} s): {[acts[k] for k in list(crit - may)[:3]]}; "
                f"on a longest path and not critical: {[acts[k] for k in list(must - crit)[:3]]}")
        if abs(cp.simulation_graph.max_duration - top) > 0.002 * (1 + len(real)):
            bad(f"{label}: maximum duration {cp.simulation_graph.max_duration}, not {top}")
        if rows:
            self.chart(label, cp, df, bad, cnt)
        cnt["simulated graphs"] += bool(real)
        if crit and crit != set(real):
            sigs.add(runner.sig(sorted((real[k], k in crit) for k in real)))

    def chart(self, label, cp, df, bad, cnt):
        fig = cp.make_plotly_gantt_chart(static=True)
        got = collections.Counter()
        for tr in fig["data"]:
            x, y = list(tr["x"]), list(tr["y"])
            for i in range(0, len(x), 3):
                got[tr["name"], y[i], pd.Timestamp(x[i]), pd.Timestamp(x[i + 1])] += 1
        want = collections.Counter()
        for x in df.itertuples(index=False):
            want[x.Activity, x.SimulationObject, x.start_time, x.end_time] += 1
            if x.is_critical:
                want["critical_path", x.SimulationObject, x.start_time, x.end_time] += 1
        cnt["chart rows"] += sum(want.values())
        if got != want:
            bad(f"{label}: chart: unexpected bars {list(got - want)[:3]}, missing {list(want - got)[:3]}")
