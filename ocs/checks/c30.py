"""C30: exported ranges against the executions in the logbooks."""

import collections
import contextlib
import csv
import io
import os
import random
import tempfile

import openclsim.io as ocio
from openclsim.core.log import LogState

from .. import exports, runner
from ..boot import core, pd, shapely, simpy


class Plain(core.Identifiable, core.Locatable, core.HasContainer, core.Log):
    pass


class Bare(core.Identifiable, core.Log):
    pass


def secs(v):
    """A duration as microseconds: exact whichever way its seconds were divided."""
    return None if v is None or v != v else round(v * 1e6)


def plain(v):
    if isinstance(v, dict):
        return sorted((k, float(x)) for k, x in v.items())
    return None if v is None or v != v else float(v)


def when(v):
    return None if v is None or v is pd.NaT or v != v else pd.Timestamp(v).to_pydatetime()


class CHECK(runner.Check):
    id = "C30"
    technique = "oracle over exported ranges of monitored executions"
    rule = ("Ranges of every object, reporter and activity after simulated models of all families, complete and cut "
            "off at a random time, with raw ids and id maps; the export of the activity log and its file. "
            "Non-trivial: an object or activity with at least two ranges; distinct by the ranges.")
    needs = ("ranges", "level pairs", "open range", "refused open ranges", "structural", "empty log", "export rows", "file rows", "direct ranges")

    def jobs(self, tier, seed):
        n = dict(quick=480, thorough=6000)[tier]
        return exports.jobs(n, f"{seed}:C30") + [dict(f=-1, seed=f"{seed}:C30:d{i}") for i in range(n)]

    def direct(self, r, bad, cnt, sigs):
        """Ranges of an object whose entries were logged directly: activities side by side, some again and again."""
        env = simpy.Environment()
        plain = r.random() < 0.5
        o = Plain(env=env, name="o", geometry=shapely.geometry.Point(1, 2), capacity=50, level=20) if plain else Bare(env=env, name="o")
        t0 = r.choice([0, 12.25, 1.6e9])
        unit = r.choice([1, 0.25, 3600, 86400.5])
        entries, last = [], 0
        for i in r.sample(["a", "b", "c-1", "A", "ab", "Timestamp"], r.randint(1, 5)):
            t = r.randint(0, 6)
            for k in range(r.choice([0, 1, 2, 5, 30])):
                d = r.choice([0, 1, 1, 2, 7])
                entries += [(t, i, "START"), (t + d, i, "STOP")]
                last = max(last, t + d)
                t += d + r.choice([0, 0, 1, 5])
            if r.random() < 0.3:
                entries.append((r.choice([t, max(t, last)]), i, "START"))
        # in the order of time, and per activity in the order they were written
        if r.random() < 0.8:
            entries.sort(key=lambda e: e[0])
        for t, i, st in entries:
            o.log_entry_v1(t0 + t * unit, i, LogState[st])
            if plain and r.random() < 0.5:
                getattr(o.container, "get" if o.container.get_level() > 20 else "put")(r.choice([1, 2.5]))
                env.run()
        want, opn = self.expected(o.logbook)
        if want is None or max(opn.values(), default=0) > 1:
            raise RuntimeError("harness: directly logged ranges are inconsistent")
        mp = {"a": "Alpha", "A": "Beta"} if r.random() < 0.3 else {}
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                df = ocio.get_ranges_dataframe(o, id_map=mp) if mp else ocio.get_ranges_dataframe(o)
        except Exception as e:  # noqa: BLE001
            bad(f"direct entries {entries[:12]}: {type(e).__name__}: {e}")
            return
        cnt["open range"] += sum(opn.values())
        cnt["direct ranges"] += len(want)
        self.compare(bad, "direct entries", self.rows(df, "Activity"), [(mp.get(x[0], x[0]), *x[1:]) for x in want], cnt)
        for i, g in df.groupby("Activity"):
            if list(g.sort_values("trip")["TimestampStart"]) != sorted(g["TimestampStart"]) or \
                    sorted(g["trip"]) != list(range(1, len(g) + 1)):
                bad(f"direct entries: ranges of {i} are numbered {list(g['trip'])}")
        if len(want) > 1:
            sigs.append(runner.sig(sorted(map(repr, want))))

    def expected(self, logbook, names=None):
        """(rows, starts without stop per activity) or None if the log is no succession of ranges."""
        ex = exports.executions(logbook)
        if ex is None:
            return None, None
        rows, opn = [], collections.Counter()
        for i, a, b in ex:
            lv0 = plain(a["ObjectState"].get("container level"))
            lv1 = plain(b["ObjectState"].get("container level")) if b else None
            t0, t1 = a["Timestamp"], b["Timestamp"] if b else None
            rows.append((names.get(i, i) if names else i, t0, t1, secs((t1 - t0).total_seconds()) if b else None, lv0, lv1))
            if b is None:
                opn[i] += 1
        return rows, opn

    def rows(self, df, key):
        lev = "ContainerLevelStart" in df.columns
        return [(getattr(x, key), when(x.TimestampStart), when(x.TimestampStop), secs(x.TimestampDt),
                 plain(x.ContainerLevelStart) if lev else None, plain(x.ContainerLevelStop) if lev else None)
                for x in df.itertuples(index=False)]

    def compare(self, bad, what, got, want, cnt):
        cnt["ranges"] += len(got)
        cnt["level pairs"] += sum(1 for x in got if x[4] is not None)
        a, b = collections.Counter(map(repr, got)), collections.Counter(map(repr, want))
        if a != b:
            bad(f"{what}: {len(got)} ranges, {len(want)} executions; unexpected {list(a - b)[:2]}, missing {list(b - a)[:2]}")
        st = [x[1] for x in got]
        if any(p > q for p, q in zip(st, st[1:])):
            bad(f"{what}: ranges are not sorted by start time")

    def work(self, job):
        r = random.Random(job["seed"] + "x")
        issues, cnt, sigs = [], collections.Counter(), []

        def bad(t):
            issues.append([None, t])

        if job["f"] < 0:
            for _ in range(4):
                self.direct(r, bad, cnt, sigs)
            return dict(issues=issues[:4], counters=dict(cnt), nontrivial=bool(sigs), sigs=sigs, sample=None)
        sim = exports.run(job)
        if sim.hang:
            return dict(inconclusive="wall-clock watchdog")
        cnt["events"] += sim.env.nsteps

        names = {a.id: n for n, a in sim.acts.items()}
        good = True
        for kind, n, o in exports.logged(sim):
            lb = o.logbook
            mp, arg = None, None
            w = r.random()
            if w < 0.2:
                mp, arg = names, list(sim.tops)
            elif w < 0.35:
                mp = arg = {i: f"label of {x}" for i, x in names.items()}
            want, opn = self.expected(lb, mp)
            if want is None:
                bad(f"{kind} {n}: the log has a STOP without START")
                good = False
                continue
            if not lb:
                cnt["empty log"] += 1
            many = opn and max(opn.values()) > 1
            odd = any(c == 1 and any(x[2] is not None and x[1] > y[1] for x in want for y in want
                                     if x[0] == y[0] and y[2] is None) for c in opn.values())
            if odd:
                good = False
                continue
            if kind == "activity" and o.__dict__.get("sub_processes"):
                cnt["structural"] += 1
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    df = ocio.get_ranges_dataframe(o, id_map=arg)
            except Exception as e:  # noqa: BLE001
                if many:
                    cnt["refused open ranges"] += 1
                    good = good and kind != "activity"
                    continue
                bad(f"{kind} {n}: {type(e).__name__}: {e}")
                good = False
                continue
            if many:
                bad(f"{kind} {n}: several ranges without stop were exported")
                good = False
                continue
            cnt["open range"] += sum(opn.values())
            self.compare(bad, f"{kind} {n}", self.rows(df, "Activity"), want, cnt)
            for i, g in df.groupby("Activity"):
                if sorted(g["trip"]) != list(range(1, len(g) + 1)):
                    bad(f"{kind} {n}: ranges of {i} are numbered {list(g['trip'])}")
            if len(want) > 1:
                sigs.append(runner.sig(sorted(map(repr, [x[1:] for x in want]))))
        acts_ok = good and not any(
            c > 1 for a in sim.acts.values() for c in (self.expected(a.logbook)[1] or {}).values())
        if acts_ok:
            self.export(r, sim, bad, cnt)
        return dict(issues=issues[:4], counters=dict(cnt), nontrivial=bool(sigs), sigs=sigs,
                    sample=dict(job=job, outcome=sim.outcome, ranges=cnt["ranges"]))

    def export(self, r, sim, bad, cnt):
        tops = list(sim.tops)
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "l.csv")
            with contextlib.redirect_stdout(io.StringIO()):
                df = ocio.get_activity_log(tops if r.random() < 0.6 else {t.name: t for t in tops}, ofile=f)
            with open(f, newline="") as h:
                lines = list(csv.reader(h))
        want = []
        info = {a.id: (n, type(a).__name__) for n, a in sim.acts.items()}
        for n, a in sim.acts.items():
            want += [x[:4] + info[x[0]] for x in self.expected(a.logbook)[0]]
        got = [(x.ActivityID, when(x.TimestampStart), when(x.TimestampStop), secs(x.TimestampDt), x.ActivityName, x.ActivityClass)
               for x in df.itertuples(index=False)]
        cnt["export rows"] += len(got)
        a, b = collections.Counter(map(repr, got)), collections.Counter(map(repr, want))
        if a != b:
            bad(f"activity log export: {len(got)} rows, {len(want)} executions; unexpected {list(a - b)[:2]}, missing {list(b - a)[:2]}")
        st = [x[1] for x in got]
        if any(p > q for p, q in zip(st, st[1:])):
            bad("activity log export is not sorted by start time")
        cnt["file rows"] += len(lines) - 1
        keys = ["trip", "ActivityID", "ActivityName", "ActivityClass", "TimestampStart", "TimestampStop", "TimestampDt"]
        if sorted(lines[0]) != sorted(keys):
            bad(f"activity log file has columns {lines[0]}")
            return
        at = {k: lines[0].index(k) for k in keys}

        def t(v):
            return when(v) if v else None

        fl = [(x[at["ActivityID"]], t(x[at["TimestampStart"]]), t(x[at["TimestampStop"]]),
               secs(float(x[at["TimestampDt"]])) if x[at["TimestampDt"]] else None, x[at["ActivityName"]], x[at["ActivityClass"]])
              for x in lines[1:]]
        if collections.Counter(map(repr, fl)) != b:
            bad("activity log file differs from the executions")
