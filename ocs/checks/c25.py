"""C25: the table of recorded activities against the logbooks."""

import collections
import random

from .. import exports, gen, runner
from ..boot import DependenciesFromRecordedActivities, pd
from ..build import Sim

FAMS = [
    ("transport", {}), ("transport", dict(ties=True)), ("transport", dict(wx=0.3, delay=0.3)), ("transport", dict(delay=0.6)),
    ("yard", {}), ("yard", dict(ties=True)), ("handover", {}), ("handover", dict(ties=True)),
    ("struct", {}), ("struct", dict(ties=True)), ("struct", dict(wx=0.3, delay=0.3)), ("struct", dict(depth=2)),
    ("web", {}), ("web", dict(ties=False)), ("loops", {}), ("loops", dict(ties=True)),
]


def simulate(job, env=None, **over):
    fam, kw = FAMS[job["f"]]
    spec = getattr(gen, fam)(random.Random(job["seed"]), **dict(kw, **over))
    if env:
        spec["env"] = env
        for n in gen.walk(spec["acts"]):  # durations of the probes are on nobody's account
            for p in n.get("probes", ()):
                p.pop("pre", 0), p.pop("post", 0)
    return Sim(spec).run()


def intervals(logbook):
    """[(activity id, part or None, start, stop, state)] of complete intervals in one log, or None."""
    out, open_ = [], collections.defaultdict(list)
    for e in logbook:
        st = e["ActivityState"]
        kind = "WAITING" if st.startswith("WAIT") else "ACTIVE"
        key = (e["ActivityID"], kind, exports.part(e) if kind == "ACTIVE" else None)
        if st.endswith("START"):
            open_[key].append(e["Timestamp"])
        elif st.endswith("STOP"):
            out.append((e["ActivityID"], key[2], open_[key].pop(0), e["Timestamp"], kind))
    if any(open_.values()):
        return None
    return out


def kth(rows):
    """What pairing the k-th start with the k-th stop makes of the rows of one activity:
    [(object, start, stop, state)] -> the same with other stops."""
    st = sorted([(a, {"ACTIVE": "START", "WAITING": "WAIT_START"}[s], o) for o, a, b, s in rows], key=lambda x: x[:2])
    sp = sorted(b for _, _, b, _ in rows)
    return [(o, a, b, "WAITING" if "WAIT" in s else "ACTIVE") for (a, s, o), b in zip(st, sp)]


def dt(v):
    return pd.Timestamp(v).to_pydatetime()


class CHECK(runner.Check):
    id = "C25"
    technique = "oracle over the table of recorded activities, recomputed from the logbooks of monitored executions"
    rule = ("Complete simulations of all families with waits, delays, weather and ties; tables for all or some of the "
            "objects. Non-trivial: at least four recorded rows; distinct by the rows.")
    needs = ("rows", "waiting rows", "activity rows", "object rows", "shared identifiers", "structural rows")

    def jobs(self, tier, seed):
        return [dict(f=i % len(FAMS), seed=f"{seed}:C25:{i}") for i in range(dict(quick=900, thorough=12000)[tier])]

    def work(self, job):
        r = random.Random(job["seed"] + "x")
        sim = simulate(job)
        if sim.hang:
            return dict(inconclusive="wall-clock watchdog")
        if sim.outcome != "done":
            return dict(counters={"not complete": 1})
        issues, cnt = [], collections.Counter(events=sim.env.nsteps)
        objs = list(sim.objs.values())
        if r.random() < 0.3:
            objs = r.sample(objs, r.randint(1, len(objs))) if objs else objs
        objs += [o for o in sim.reporters.values() if r.random() < 0.2]
        r.shuffle(objs)
        names = {a.id: n for n, a in sim.acts.items()}
        want, structural = collections.defaultdict(list), set()
        for label, o in [(o.name, o) for o in objs] + [("Activity", a) for a in sim.acts.values()]:
            iv = intervals(o.logbook)
            if iv is None:
                return dict(counters={"open logs": 1})
            for i, part, a, b, st in iv:
                want[i].append((label, a, b, st))
                if part is not None:
                    structural.add(i)
        if not any(o.logbook for o in objs):
            return dict(counters={"no object log": 1})
        df = DependenciesFromRecordedActivities(sim.env, objs, list(sim.tops)).get_recorded_activity_df()
        got = collections.defaultdict(list)
        ident, back = {}, {}
        for x in df.itertuples(index=False):
            a, b = dt(x.start_time), dt(x.end_time)
            got[x.ActivityID].append((x.SimulationObject, a, b, x.state))
            if x.Activity != names.get(x.ActivityID):
                issues.append([None, f"activity {names.get(x.ActivityID)} is called {x.Activity}"])
            if pd.Timedelta(x.duration).to_pytimedelta() != b - a:
                issues.append([None, f"duration {x.duration} of {x.Activity} from {a} to {b}"])
            k = (x.ActivityID, a, b)
            if ident.setdefault(k, x.cp_activity_id) != x.cp_activity_id:
                issues.append([None, f"{x.Activity} from {a} to {b} has two identifiers"])
            elif back.setdefault(x.cp_activity_id, k) != k:
                issues.append([None, f"{x.Activity} from {a} to {b} shares its identifier with {back[x.cp_activity_id]}"])
            cnt["object rows" if x.SimulationObject != "Activity" else "activity rows"] += 1
            cnt["waiting rows"] += x.state == "WAITING"
        cnt["rows"] += len(df)
        cnt["shared identifiers"] += len(df) - len(back)
        if list(df.start_time) != sorted(df.start_time):
            issues.append([None, "rows are not in order of time"])
        for i in set(want) | set(got):
            if i in structural:
                cnt["structural rows"] += len(want[i])
            a, b = collections.Counter(got[i]), collections.Counter(want[i])
            if a != b:
                key = None
                if i in structural and a == collections.Counter(kth(want[i])):
                    key = "structural-pairing"
                issues.append([key, f"{names[i]}: {len(got[i])} rows, {len(want[i])} intervals in the logs; unexpected "
                                    f"{str(list((a - b)))[:300]}, missing {str(list((b - a)))[:300]}"])
        return dict(issues=issues[:6], counters=dict(cnt), nontrivial=len(df) > 3,
                    sig=runner.sig(sorted(map(repr, (x for v in got.values() for x in v)))),
                    sample=dict(job=job, rows=len(df), identifiers=len(back)))
