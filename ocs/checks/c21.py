"""C21: the same model run again, with other ids, in other processes with other hash seeds."""

import json
import os
import subprocess
import sys

from .. import detrun, runner

FAMS = [
    ("transport", {}), ("transport", dict(ties=True)), ("transport", dict(wx=0.3, delay=0.3, probes=0.2)),
    ("yard", {}), ("yard", dict(ties=True)), ("yard", dict(tight=True, budget=True, ties=True)),
    ("yard", dict(nr=True, ties=True)), ("handover", {}), ("handover", dict(ties=True)),
    ("struct", {}), ("struct", dict(ties=True, se=0.5)), ("struct", dict(ties=True, wx=0.2, delay=0.2, probes=0.4)),
]
SIZE = 24


class CHECK(runner.Check):
    id = "C21"
    technique = "differential monitoring of repeated executions across processes, hash seeds and ids"
    rule = ("Random models of all families, half of them with many events at the same instant; each is run in three "
            "processes with different hash seeds and, within them, with generated ids, explicit ids and other explicit "
            "ids; end time, levels, positions and every log are compared with ids resolved to names. Non-trivial: "
            "at least 20 log entries.")
    needs = ("models", "runs", "log entries compared")

    def jobs(self, tier, seed):
        n = dict(quick=40, thorough=600)[tier]
        return [dict(seed=f"{seed}:{i}") for i in range(n)]

    def work(self, job):
        jobs = []
        for k in range(SIZE):
            fam, kw = FAMS[k % len(FAMS)]
            jobs.append(dict(fam=fam, kw=kw, seed=f"{job['seed']}:{k}"))
        if "only" in job:
            jobs = [jobs[job["only"]]]
        runs = {}
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        for hs, salt in ((1, "a"), (77, "b"), (4242, None)):
            env = dict(os.environ, PYTHONHASHSEED=str(hs))
            p = subprocess.run([sys.executable, "-m", "ocs.detrun"], input=json.dumps(dict(jobs=jobs, salt=salt)),
                               capture_output=True, text=True, cwd=here, env=env)
            if p.returncode:
                return dict(inconclusive=f"subprocess failed: {p.stderr[-800:]}")
            runs[f"process with hash seed {hs}, {'generated ids' if salt is None else 'ids ' + salt}"] = json.loads(
                p.stdout.splitlines()[-1])
        for salt in ("b", "c"):
            runs[f"first process, ids {salt}"] = [detrun.outcome(j, salt) for j in jobs]
        issues, cnt, big = [], {"models": 0, "runs": 0, "log entries compared": 0}, 0
        names = list(runs)
        sigs = []
        for k, j in enumerate(jobs):
            outs = [runs[n][k] for n in names]
            if any(o is None for o in outs):
                return dict(inconclusive="wall-clock watchdog")
            cnt["models"] += 1
            cnt["runs"] += len(outs)
            cnt["log entries compared"] += outs[0]["#entries"]
            big += outs[0]["#entries"] >= 20
            if outs[0]["#entries"] >= 20:
                sigs.append(runner.sig(sorted(outs[0].items())))
            for n, o in zip(names[1:], outs[1:]):
                diff = [c for c in outs[0] if c != "#events" and o.get(c) != outs[0][c]]
                if diff:
                    issues.append([None, f"{j}: {n} differs from {names[0]} in {diff[:6]}"])
        return dict(issues=issues[:4], counters=cnt, sigs=sigs, nontrivial=big > 0,
                    sample=dict(job=job, models=cnt["models"], entries=cnt["log entries compared"], runs=names))
