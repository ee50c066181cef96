"""Runs the jobs of one check on all cores, decides, and writes its evidence."""

import collections
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("OCS_EVIDENCE") or os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")

PASS, VIOLATION, INCONCLUSIVE = 0, 1, 3


class Check:
    """What a check is.  work(job) returns a dict:

    issues        list of [key or None, text]: refuted; key names a known-finding mechanism
    counters      {name: number}: what the monitors compared
    sig           something hashable that identifies the behaviour observed
    nontrivial    bool
    inconclusive  text or None
    sample        small JSON value or None
    """

    id = None
    rule = ""
    technique = ""
    needs = ()  # counters that must be reached, or nothing was decided

    def jobs(self, tier, seed):
        raise NotImplementedError

    def work(self, job):
        raise NotImplementedError

    def finish(self, tier, seed, add):
        """Work that is not a job (runs in the parent); add(result, job)."""


def known_keys(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                parts = line[6:].split(None, 2)
                kv = dict(p.split("=", 1) for p in parts[:2])
                if kv.get("property") == pid:
                    out[kv["key"]] = parts[2]
    return out


_CHECK = None


def _work(job):
    try:
        return job, _CHECK.work(job)
    except Exception as e:  # noqa: BLE001
        where = blame(e)
        if where:
            return job, dict(issues=[[None, f"a call that has to work failed in {where}: {type(e).__name__}: {str(e)[:300]}"]])
        # the harness itself failed: no verdict
        return job, dict(inconclusive="harness: " + traceback.format_exc()[-1500:])


def blame(e):
    """The function of the code under test that raised, on its own or in a library it called; None if the harness did."""
    from .boot import openclsim

    here = os.path.dirname(os.path.abspath(__file__))
    code = os.path.dirname(os.path.abspath(openclsim.__file__))
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        name = os.path.abspath(f.filename)
        if name.startswith(here + os.sep):
            return None
        if name.startswith(code + os.sep):
            return f"{os.path.relpath(name, code)}, {f.name}"
    return None


def sig(obj):
    return hashlib.md5(repr(obj).encode()).hexdigest()[:16]


def main(check, tier, seed, replay=None):
    global _CHECK
    _CHECK = check
    t0 = time.time()
    pid = check.id
    known = known_keys(pid)
    if replay:
        jobs = [json.load(open(replay))["job"]]
    else:
        jobs = check.jobs(tier, seed)[:: int(os.environ.get("OCS_STRIDE", "1"))]  # a part only: tools/mutate.py
    counters = collections.Counter()
    sigs = set()
    n_eval = 0
    violations, seen_known, inconc, samples = [], collections.Counter(), [], []

    def add(job, res):
        nonlocal n_eval
        n_eval += 1
        for k, v in res.get("counters", {}).items():
            if k.startswith("max:"):
                counters[k] = max(counters[k], v)
            else:
                counters[k] += v
        if res.get("inconclusive"):
            inconc.append((job, res["inconclusive"]))
        if res.get("nontrivial"):
            sigs.update(res["sigs"] if "sigs" in res else [res.get("sig")])
        if res.get("sample") is not None and len(samples) < 3:
            samples.append(res["sample"])
        fresh = []
        for key, text in res.get("issues", []):
            if key is not None and key in known:
                seen_known[key] += 1
            else:
                fresh.append((key, text))
        if fresh:
            violations.append((job, fresh))

    procs = int(os.environ.get("OCS_PROCS", "0")) or min(8, os.cpu_count() or 1)
    if replay or procs == 1 or len(jobs) < 4:
        for j in jobs:
            add(*_work(j))
    else:
        chunk = max(1, min(40, len(jobs) // (procs * 8) or 1))
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(procs) as pool:
            for job, res in pool.imap_unordered(_work, jobs, chunksize=chunk):
                add(job, res)
                if len(violations) >= int(os.environ.get("OCS_STOP", "25")):
                    pool.terminate()
                    break
    if not replay and not violations:
        check.finish(tier, seed, lambda res, job: add(job, res))

    missing = [n for n in check.needs if not counters.get(n)] if not replay else []
    code = PASS
    if violations:
        code = VIOLATION
    elif missing or len(inconc) > max(0, 0.02 * n_eval):
        code = INCONCLUSIVE

    for key in sorted(known):
        if seen_known[key]:
            print(f"KNOWN-FINDING: property={pid} {known[key]} [{key}, seen {seen_known[key]} times]")
        elif not replay and code == PASS:
            print(f"note: known finding {key} of {pid} was not reproduced in this run")
    rdir = os.path.join(EVIDENCE, "replays")
    violations.sort(key=lambda v: len(json.dumps(v[0], default=str)))
    for i, (job, fresh) in enumerate(violations[:5]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}-{i}.json")
        if not replay:
            with open(path, "w") as f:
                json.dump(dict(property=pid, job=job, issues=[t for _, t in fresh]), f, indent=1, default=str)
        else:
            path = replay
        print(f"VIOLATION property={pid} replay={path}")
        for key, text in fresh[:4]:
            print(f"  {text}"[:1000])
    for job, why in inconc[:3]:
        print(f"inconclusive: {json.dumps(job, default=str)[:200]}: {why}"[:1800])
    if missing and not violations:
        print(f"inconclusive: the monitors never observed {missing}")
    wall = time.time() - t0
    if not replay:
        ev = dict(
            property=pid, tier=tier, seed=seed, level="exploration",
            coverage=dict(
                evaluations=n_eval, distinct_nontrivial=len(sigs), rule=check.rule,
                samples=samples or [dict(note="no sample")],
                observed=dict(sorted(counters.items())),
                violations=len(violations), inconclusive=len(inconc),
                known_findings_seen=dict(seen_known),
            ),
            wall_s=round(wall, 2),
        )
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    word = {0: "held", 1: "VIOLATED", 3: "inconclusive"}[code]
    print(f"{pid} {tier} seed={seed}: {word}; {n_eval} executions, {len(sigs)} distinct non-trivial, "
          f"{len(violations)} violating, {len(inconc)} inconclusive, {wall:.1f}s")
    sys.stdout.flush()
    return code
