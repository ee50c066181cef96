"""C28: the tracing environment against a plain one, and its trace against the events observed."""

import collections
import random

from .. import detrun, gen, runner
from ..build import Sim
from ..exports import FAMS

FAMS = FAMS + [("transport", dict(wx=0.3, delay=0.3)), ("yard", dict(tight=True, budget=False)), ("handover", dict(ties=True))]


class CHECK(runner.Check):
    id = "C28"
    technique = "differential monitoring of plain and tracing environment; trace compared with a recorder below it"
    rule = ("Random models of all families, run to the end, cut off at a time or at the end of an activity, and resumed; "
            "each in a plain and in the tracing environment. The trace is compared with the calls of schedule() and "
            "step() recorded beneath it. Non-trivial: an event with more than one effect; distinct by the trace.")
    needs = ("models", "log entries compared", "steps", "links", "events scheduled before the run", "resumed", "crashed", "runs stopped by an event")

    def jobs(self, tier, seed):
        return [dict(f=i % len(FAMS), seed=f"{seed}:C28:{i}") for i in range(dict(quick=1800, thorough=25000)[tier])]

    def spec(self, job):
        r = random.Random(job["seed"] + "x")
        fam, kw = FAMS[job["f"]]
        s = getattr(gen, fam)(random.Random(job["seed"]), **kw)
        w = r.random()
        if w < 0.25:
            s["until"] = s.get("until") or s.get("t0", 0) + r.uniform(1, 500)
            s["resume"] = 1
        elif w < 0.5:
            s["until"] = r.choice(s["acts"])["n"]
            s["resume"] = 1
        return s

    def work(self, job):
        a = Sim(self.spec(job)).run()
        b = Sim(dict(self.spec(job), env="cp")).run()
        if a.hang or b.hang:
            return dict(inconclusive="wall-clock watchdog")
        issues, cnt = [], collections.Counter(models=1)

        def bad(t):
            issues.append([None, t])

        ra, rb = detrun.result(a), detrun.result(b)
        for k in ra:
            if repr(ra[k]) != repr(rb[k]):
                bad(f"{k} differs when traced: {str(ra[k])[:200]} / {str(rb[k])[:200]}")
        cnt["log entries compared"] += sum(len(v) for k, v in ra.items() if k.startswith("log"))
        cnt["crashed"] += a.error is not None
        cnt["resumed"] += bool(a.spec.get("resume"))
        env = b.env
        want = env.seen
        cnt["runs stopped by an event"] += bool(env.aborted)
        got = [(t0, t1, n, ev, val, prio) for t0, t1, n, _ty, val, prio, ev in env.data_step]
        cnt["steps"] += len(want)

        def key(x):
            return (x[0], x[1], x[2], id(x[3]), x[5])

        if [key(x) for x in got] != [key(x) for x in want]:
            d = next((i for i, (p, q) in enumerate(zip(got, want)) if key(p) != key(q)), min(len(got), len(want)))
            bad(f"trace of {len(got)} steps, {len(want)} events processed; first difference at {d}: "
                f"{str(got[d:d + 1])[:200]} / {str(want[d:d + 1])[:200]}")
        for x, (_, _, _, ty, val, _, ev) in zip(got, env.data_step):
            if ty is not type(ev) or val is not ev.value:
                bad(f"event {x[2]} is recorded as {ty} with value {val}")
        links = [(p, i) for i, (_, p, _) in enumerate(env.sched) if p is not None and p not in env.stops]
        cnt["events scheduled before the run"] += sum(1 for x in env.sched if x[1] is None)
        cnt["links"] += len(links)
        g, w = collections.Counter(env.data_cause_effect), collections.Counter(links)
        if g != w:
            bad(f"causes: unexpected {list((g - w).items())[:3]}, missing {list((w - g).items())[:3]}")
        multi = any(c > 1 for c in collections.Counter(p for p, _ in links).values())
        return dict(issues=issues[:4], counters=dict(cnt), nontrivial=multi,
                    sig=runner.sig([(x[0], x[2], type(x[3]).__name__) for x in want]),
                    sample=dict(job=job, outcome=b.outcome, steps=len(want), links=len(links)))
