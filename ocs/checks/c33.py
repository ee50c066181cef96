"""C33: models side by side, in one environment or one process, against each of them alone."""

import collections
import json
import random

from .. import detrun, gen, runner
from ..build import Hang, MonCPEnv, MonEnv, Sim, StepLimit, Watchdog
from ..boot import model

FAMS = [
    ("transport", {}), ("transport", dict(ties=True)), ("transport", dict(multi=True)), ("transport", dict(wx=0.3, delay=0.3, probes=0.2)),
    ("yard", {}), ("yard", dict(ties=True)), ("yard", dict(tight=True, budget=True)), ("handover", {}), ("handover", dict(ties=True)),
    ("struct", {}), ("struct", dict(ties=True, se=0.5)), ("struct", dict(wx=0.3, delay=0.3, probes=0.4)), ("moves", {}),
    ("web", {}), ("web", dict(ties=False)), ("loops", {}), ("loops", dict(ties=True)), ("storm", {}), ("scarce", {}),
]


def renamed(spec, prefix):
    """The same model with other names of activities and objects."""
    names = {n["n"] for n in gen.walk(spec["acts"])} | {o["n"] for o in spec["objs"]} | set(spec["reporters"])
    groups = {n["rr"] for n in gen.walk(spec["acts"]) if "rr" in n}

    def go(x):
        if isinstance(x, dict):
            return {k: go(v) for k, v in x.items()}
        if isinstance(x, list):
            return [go(v) for v in x]
        return prefix + x if isinstance(x, str) and x in names | groups else x

    out = go({k: spec[k] for k in ("objs", "acts", "reporters")})
    return dict(spec, **out)


class CHECK(runner.Check):
    id = "C33"
    technique = "differential monitoring of models simulated side by side and alone"
    rule = ("Pairs of random models of all families: in one environment with registries of their own and the same names, "
            "ids and kinds of content; in one environment and one registry with different names; the second one built and "
            "registered while the first one runs; and in two environments stepped in turn. Logs, levels and positions are "
            "compared with those of each model alone. Non-trivial: both models log at least ten entries.")
    needs = ("models", "log entries compared", "one registry", "own registries", "registered during the run",
             "environments in turn", "same ids", "overlapping")

    def jobs(self, tier, seed):
        return [dict(seed=f"{seed}:C33:{i}") for i in range(dict(quick=1200, thorough=16000)[tier])]

    def specs(self, r, job):
        out = []
        t0 = r.choice([0, 0, 12.5, 1.6e9])
        twin = r.random() < 0.3
        for k in "ab":
            fam, kw = r.choice(FAMS)
            s = gen_spec(job["seed"] + (k if not twin else "a"), *((fam, kw) if not (twin and out) else out[0][1:]))
            gen.shift_times(s, t0 - s.get("t0", 0))
            s["t0"] = t0
            s.pop("until", 0)
            s.pop("later", 0)
            out.append((s, fam, kw))
        return [o[0] for o in out]

    def work(self, job):
        r = random.Random(job["seed"] + "x")
        mode = r.choice(["own", "own", "one", "during", "turn"])
        sa, sb = self.specs(r, job)
        cp = r.random() < 0.2
        if r.random() < 0.5:  # other ids, of objects as well
            sb["salt"] = "b"
        same = "salt" not in sb
        if mode == "one":
            sb = renamed(sb, "x")
            sa["clash"] = sb["clash"] = 0
        first = json.dumps([sa, sb], sort_keys=True, default=str)
        alone = [Sim(s).run() for s in (sa, sb)]
        if any(s.hang for s in alone):
            return dict(inconclusive="wall-clock watchdog")
        if any(s.outcome != "done" for s in alone):
            return dict(counters={"not complete alone": 1})
        cnt = collections.Counter(models=2)
        dt = 0
        if mode == "during":
            span = alone[0].env.now - sa["t0"]
            dt = r.choice([r.uniform(0, span), r.uniform(0, span), span, float(round(r.uniform(0, span)))])
            gen.shift_times(sb, dt)
            sb["t0"] += dt
            b = Sim(sb).run()
            if b.hang:
                return dict(inconclusive="wall-clock watchdog")
            if b.outcome != "done":
                return dict(counters={"not complete alone": 1})
            alone[1] = b
        cls = MonCPEnv if cp else MonEnv
        issues, sims, err = [], [], None
        with Watchdog(20.0):
            try:
                if mode == "turn":
                    sims = [Sim(s, env=cls(initial_time=s["t0"])) for s in (sa, sb)]
                    for s in sims:
                        model.register_processes(s.tops)
                    live = list(sims)
                    while live:
                        s = r.choice(live)
                        if s.env.peek() == float("inf"):
                            live.remove(s)
                        else:
                            s.env.step()
                else:
                    env = cls(initial_time=sa["t0"])
                    reg = {} if mode == "one" else None
                    sims = [Sim(sa, env=env, registry=reg)]
                    if mode == "during":
                        model.register_processes(sims[0].tops)
                        if dt > 0:
                            env.run(until=sb["t0"])
                        sims.append(Sim(sb, env=env))
                        model.register_processes(sims[1].tops)
                    else:
                        sims.append(Sim(sb, env=env, registry=reg))
                        for s in r.sample(sims, 2):
                            model.register_processes(s.tops)
                    env.run()
            except (Hang, StepLimit):
                return dict(inconclusive="wall-clock or step watchdog")
            except Exception as e:  # noqa: BLE001
                err = e
        cnt[{"own": "own registries", "one": "one registry", "during": "registered during the run", "turn": "environments in turn"}[mode]] += 1
        cnt["same ids"] += same
        if err is not None:
            issues.append([None, f"{mode}: each completes alone, together {type(err).__name__}: {str(err)[:300]}"])
        ends, entries = [], []
        for k, (x, y) in enumerate(zip(alone, sims)):
            ra, rb = detrun.result(x), detrun.result(y)
            ra.pop("end"), rb.pop("end")
            n = sum(len(v) for c, v in ra.items() if c.startswith("log"))
            entries.append(n)
            cnt["log entries compared"] += n
            ends.append(x.env.now)
            if err is not None:
                continue
            for c in ra:
                if repr(ra[c]) != repr(rb[c]):
                    d = next(((p, q) for p, q in zip(ra[c], rb[c]) if repr(p) != repr(q)), (len(ra[c]), len(rb[c])))
                    issues.append([None, f"{mode}: {c} of model {'AB'[k]} differs beside another model: {str(d)[:400]}"])
        cnt["overlapping"] += ends[0] > sb["t0"] and ends[1] > sa["t0"]
        cnt["events"] += sum(e.nsteps for e in {id(s.env): s.env for s in sims}.values())
        if first != json.dumps([sa, sb], sort_keys=True, default=str) and mode != "during":
            raise RuntimeError("harness: the specification was changed")
        return dict(issues=issues[:4], counters=dict(cnt), nontrivial=min(entries) >= 10,
                    sig=runner.sig([mode, entries, [round(e, 3) for e in ends]]),
                    sample=dict(job=job, mode=mode, entries=entries, ends=ends))


def gen_spec(seed, fam, kw):
    return getattr(gen, fam)(random.Random(seed), **kw)
