"""C31: columnar log, log table, step chart and Gantt chart against the logbook."""

import collections
import copy
import datetime
import random
import warnings

import matplotlib.pyplot as plt
import openclsim.plot as ocplot
from openclsim.core.log import LogState

from .. import exports, runner
from ..boot import core, pd, shapely, simpy

COLS = ["Timestamp", "ActivityID", "ActivityState", "ObjectState", "ActivityLabel"]
EPOCH = datetime.datetime(1970, 1, 1)


def val(v):
    """A table cell, comparable: missing is None, times are datetimes, numbers are floats."""
    if isinstance(v, dict):
        return repr(sorted((k, val(x)) for k, x in v.items()))
    if hasattr(v, "wkt"):
        return v.wkt
    if v is None or v is pd.NaT or v != v:
        return None
    if isinstance(v, pd.Timestamp):
        return v.to_pydatetime()
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return float(v)
    return v


def rows(lb):
    return [[val(e[c]) for c in COLS] for e in lb]


def bars(trace):
    """[(row, from, to)] of the connected pieces of a line."""
    out, seg = [], []
    for x, y in zip(list(trace.x or ()) + [None], list(trace.y or ()) + [None]):
        if y is None:
            if seg:
                xs = [val(pd.Timestamp(s)) for s, _ in seg]
                out.append((tuple(sorted({str(q) for _, q in seg})), min(xs), max(xs)))
            seg = []
        else:
            seg.append((x, y))
    return out


class Plain(core.Identifiable, core.Locatable, core.HasContainer, core.Log):
    pass


class Bare(core.Identifiable, core.Log):
    pass


class CHECK(runner.Check):
    id = "C31"
    technique = "oracle over tables and figures of monitored executions, compared with the logbook entry by entry"
    rule = ("The log, the log table (no mapping, list, dict, manual map), the step chart and the Gantt chart of every "
            "object, reporter and activity after simulated models of all families, complete and cut off; and of objects "
            "whose entries were logged directly, in any order of time, with any state and label. "
            "Non-trivial: a log with at least two entries; distinct by its entries.")
    needs = ("log entries", "table rows", "mapped ids", "step points", "multi step points", "bars", "structural bars",
             "direct entries", "empty logs", "unsorted direct", "direct waits", "direct bars",
             "entries of the other format")

    def jobs(self, tier, seed):
        n = dict(quick=360, thorough=4500)[tier]
        return exports.jobs(n, f"{seed}:C31") + [dict(f=-1, seed=f"{seed}:C31:d{i}") for i in range(2 * n)]

    def work(self, job):
        r = random.Random(job["seed"] + "x")
        issues, cnt, sigs = [], collections.Counter(), []

        def bad(t):
            issues.append([None, t])

        if job["f"] < 0:
            self.direct(r, bad, cnt, sigs)
            self.chart(r, bad, cnt, sigs)
            self.old(r, bad, cnt, sigs)
            return dict(issues=issues[:4], counters=dict(cnt), nontrivial=bool(sigs), sigs=sigs, sample=None)
        sim = exports.run(job)
        if sim.hang:
            return dict(inconclusive="wall-clock watchdog")
        cnt["events"] = sim.env.nsteps
        names = {a.id: n for n, a in sim.acts.items()}
        for kind, n, o in exports.logged(sim):
            what = f"{kind} {n}"
            self.columnar(what, o, bad, cnt)
            self.table(r, what, o, names, list(sim.tops), bad, cnt)
            if len(o.logbook) > 1:
                sigs.append(runner.sig(rows(o.logbook)))
        self.steps(r, sim, bad, cnt)
        self.gantt(r, sim, names, bad, cnt)
        return dict(issues=issues[:4], counters=dict(cnt), nontrivial=bool(sigs), sigs=sigs,
                    sample=dict(job=job, outcome=sim.outcome, entries=cnt["log entries"], bars=cnt["bars"]))

    # -- tables
    def columnar(self, what, o, bad, cnt):
        lg = o.log
        lb = o.logbook
        cnt["log entries"] += len(lb)
        if not lb:
            cnt["empty logs"] += 1
        if sorted(lg) != sorted(COLS):
            bad(f"{what}: columnar log has columns {list(lg)}")
            return
        got = [[val(v) for v in t] for t in zip(*(lg[c] for c in COLS))]
        if {len(lg[c]) for c in COLS} != {len(lb)} or got != rows(lb):
            bad(f"{what}: columnar log of {len(got)} entries differs from the logbook of {len(lb)}: "
                f"{next(((a, b) for a, b in zip(got, rows(lb)) if a != b), None)}")
        if any(type(t) is not datetime.datetime for t in lg["Timestamp"]):
            bad(f"{what}: timestamps of the columnar log are {type(lg['Timestamp'][0])}")

    def table(self, r, what, o, names, tops, bad, cnt, manual=False):
        w = r.choice([0.5, 0.9]) if manual else r.random()
        mp, arg = {}, None
        if w < 0.25:
            mp, arg = names, list(tops)
        elif w < 0.4:
            mp, arg = names, {t.name: t for t in tops}
        elif w < 0.7:
            some = [i for i in names if r.random() < 0.7]
            mp = arg = {i: f"label of {names[i]}" for i in some}
            if r.random() < 0.3 and len(some) > 1:  # labels that look like other ids
                mp = arg = dict(zip(some, some[1:] + some[:1]))
        given = copy.copy(arg)
        df = ocplot.get_log_dataframe(o, arg) if arg is not None else ocplot.get_log_dataframe(o)
        if given != arg:
            bad(f"{what}: the id map was changed")
        lb = sorted(o.logbook, key=lambda e: e["Timestamp"])
        want = []
        for e in lb:
            row = {"Activity": mp.get(e["ActivityID"], e["ActivityID"]), "Timestamp": e["Timestamp"], "ActivityState": e["ActivityState"]}
            cnt["mapped ids"] += e["ActivityID"] in mp
            row.update(e["ObjectState"])
            row.update(e["ActivityLabel"] or {})
            want.append({k: val(v) for k, v in row.items() if val(v) is not None})
        cols = list(df.columns)
        got = [{k: val(v) for k, v in zip(cols, x) if val(v) is not None} for x in df.itertuples(index=False, name=None)]
        cnt["table rows"] += len(got)
        if got != want:
            bad(f"{what}: log table of {len(got)} rows differs from the {len(want)} entries: "
                f"{next(((a, b) for a, b in zip(got, want) if a != b), None)}")

    def direct(self, r, bad, cnt, sigs):
        env = simpy.Environment()
        if r.random() < 0.7:
            o = Plain(env=env, name="o", geometry=shapely.geometry.Point(1, 2), capacity=10, level=5)
        else:
            o = Bare(env=env, name="o")
        n = r.choice([0, 1, 2, 5, 12, 12, r.choice([40, 130, 400])])
        t, ts = r.choice([0, 12.25, 1.6e9]), []
        for _ in range(n):
            ts.append(t)
            t += r.choice([0, 0, 1, 3.5, 1000.125, 90000])
        if r.random() < 0.4:
            r.shuffle(ts)
        ids = [r.choice(["a", "b", "c-1", 7, 8]) for _ in range(3)]
        want = []
        for t in ts:
            i, st = r.choice(ids), r.choice(list(LogState))
            kw, state, lab = {}, {}, {}
            if isinstance(o, Plain):
                state = {"container level": o.container.get_level(), "geometry": o.geometry}
            if r.random() < 0.5:
                kw["additional_state"] = {"draught": r.random(), **({"geometry": "deck"} if r.random() < 0.3 else {})}
                state.update(kw["additional_state"])
            if r.random() < 0.5:
                lab = kw["activity_label"] = {"type": "plugin", "ref": r.choice(["x", "y"])}
            o.log_entry_v1(t, i, st, **kw)
            want.append([EPOCH + datetime.timedelta(seconds=t), val(i), st.name, val(state), val(lab)])
            if isinstance(o, Plain) and r.random() < 0.5:
                k = "get" if o.container.get_level() > 5 else "put"
                getattr(o.container, k)(r.choice([1, 2.5]))
                env.run()
                o.geometry = shapely.geometry.Point(r.random(), 2)
            elif r.random() < 0.3 and "additional_state" in kw:
                kw["additional_state"]["draught"] = -1  # the caller's dict stays the caller's
        cnt["direct entries"] += n
        if ts != sorted(ts):
            cnt["unsorted direct"] += 1
        got = rows(o.logbook)
        if got != want:
            bad(f"direct entries: logbook {next(((a, b) for a, b in zip(got, want) if a != b), (len(got), len(want)))}")
        self.columnar("direct", o, bad, cnt)
        self.table(r, "direct", o, {"a": "Alpha", "b": "Beta", "c-1": "Gamma"}, [], bad, cnt, manual=True)
        if n > 1:
            sigs.append(runner.sig(want))

    def old(self, r, bad, cnt, sigs):
        """Logs with entries of the other format (message, value, geometry) among them."""
        env = simpy.Environment()
        o = Bare(env=env, name="o")
        want = []
        share = r.choice([0.3, 0.7, 1])
        t = r.choice([0.0, 12.25, 1.6e9])
        for k in range(r.choice([1, 2, 5, 12])):
            t += r.choice([0, 1, 3.5, 90000])
            if r.random() < share:
                g = shapely.geometry.Point(r.random(), 2)
                if r.random() < 0.8:
                    o.log_entry_v0(f"m{k}", t, k, g)
                else:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        o.log_entry(f"m{k}", t, k, g)
                at = datetime.datetime.fromtimestamp(t)
                want.append(dict(Message=f"m{k}", Timestamp=at, Value=k, Geometry=g))
            else:
                st = r.choice(list(LogState))
                o.log_entry_v1(t, r.choice(["a", 7]), st)
                at = EPOCH + datetime.timedelta(seconds=t)
                want.append(dict(Timestamp=at, ActivityID=o.logbook[-1]["ActivityID"], ActivityState=st.name, ObjectState={}, ActivityLabel={}))
        if o.logbook != want:
            bad(f"entries of both formats: logbook {str(o.logbook)[:200]}, expected {str(want)[:200]}")
        lg = o.log
        cols = [c for c in COLS if any(c in e for e in want)]
        got = [[val(v) for v in x] for x in zip(*(lg[c] for c in cols))] if sorted(lg) == sorted(cols) else sorted(lg)
        if got != [[val(e.get(c)) for c in cols] for e in want]:
            bad(f"entries of both formats: columnar log {str(got)[:200]}, expected {str(want)[:200]}")
        cnt["entries of the other format"] += sum("Message" in e for e in want)

    def chart(self, r, bad, cnt, sigs):
        """A Gantt chart of objects whose waits and ranges were logged directly."""
        env = simpy.Environment()
        objs, want, all_t = [], collections.defaultdict(list), []
        t0 = r.choice([0, 12.25, 1.6e9])
        many = r.random() < 0.3
        ids = r.sample(["a", "b", "c-1", "A", "ab"], r.randint(1, 4))
        numbers = r.random() < 0.3
        for k in range(r.randint(1, 3)):
            o = Bare(env=env, name=f"o{k}")
            entries = []
            for i in ids if r.random() < 0.6 else ids[:1]:
                t = r.randint(0, 6)
                for _ in range(r.randint(30, 90) if many else r.choice([0, 1, 2, 5])):
                    if r.random() < 0.7:
                        d = r.choice([0, 1, 4])
                        entries += [(t, i, "WAIT_START"), (t + d, i, "WAIT_STOP")]
                        t += d
                    d = r.choice([0, 1, 1, 2, 7])
                    entries += [(t, i, "START"), (t + d, i, "STOP")]
                    t += d + r.choice([0, 0, 1, 5])
            entries.sort(key=lambda e: e[0])
            for t, i, st in entries:
                o.log_entry_v1(t0 + t, i, LogState[st])
            objs.append(o)
        full = [o for o in objs if o.logbook]
        if not full:
            return
        for k, o in enumerate(full):
            for e in o.logbook:
                want[e["ActivityID"]]
                all_t.append(e["Timestamp"])
            for i, a, b in exports.executions(o.logbook):
                want[i].append(((str(-k if numbers else o.name),), a["Timestamp"], b["Timestamp"]))
        cnt["direct waits"] += sum(e["ActivityState"] == "WAIT_STOP" for o in full for e in o.logbook)
        mp = {"a": "Alpha"} if r.random() < 0.4 else {}
        kw = dict(y_scale="numbers") if numbers else {}
        if mp:
            kw["id_map"] = mp
        if len(full) > 1 and r.random() < 0.3:
            kw["activities"] = list(dict.fromkeys(e["ActivityID"] for o in objs for e in o.logbook))
        ch = ocplot.get_gantt_chart(objs, static=True, **kw)
        got = collections.defaultdict(list)
        for tr in ch["data"]:
            got[tr.name] = bars(tr)  # an activity of several objects has a trace for each, of all of them
        if {mp.get(i, i): sorted(v) for i, v in want.items()} != {n: sorted(v) for n, v in got.items()}:
            bad(f"Gantt chart of {len(full)} logs: {str({n: len(v) for n, v in got.items()})[:200]} bars, "
                f"expected {str({i: len(v) for i, v in want.items()})[:200]}")
        rg = [val(pd.Timestamp(x)) for x in ch["layout"].xaxis.range]
        if rg != [min(all_t), max(all_t)]:
            bad(f"Gantt chart of logs: time axis {rg}, logs {min(all_t)} to {max(all_t)}")
        cnt["direct bars"] += sum(map(len, want.values()))
        sigs.append(runner.sig(sorted(map(repr, want.items()))))

    # -- charts
    def steps(self, r, sim, bad, cnt):
        objs = [o for o in sim.objs.values() if hasattr(o, "container") and (o.logbook or r.random() < 0.5)]
        r.shuffle(objs)
        cm = None
        if r.random() < 0.4:
            cm = {"default": "hold", "rock": "Rock"}
        fig = ocplot.get_step_chart(objs, container_map=cm) if cm else ocplot.get_step_chart(objs)
        try:
            lines = [ln for ax in fig.axes for ln in ax.get_lines()]
            got = [(ln.get_label(), [val(t) for t in ln.get_xdata(orig=True)], [float(y) for y in ln.get_ydata(orig=True)])
                   for ln in lines]
        finally:
            plt.close("all")
        want = []
        for o in objs:
            if not o.logbook:
                continue
            lb = sorted(o.logbook, key=lambda e: e["Timestamp"])
            xs = [e["Timestamp"] for e in lb]
            for c in o.container.container_list:
                lv = [e["ObjectState"]["container level"] for e in lb]
                multi = isinstance(lv[0], dict)
                ys = [float(v[c]) for v in lv] if multi else [float(v) for v in lv]
                lab = (cm or {"default": ""}).get(c, c)
                want.append((f"{o.name} {lab}", xs, ys))
                cnt["step points"] += len(ys)
                cnt["multi step points"] += len(ys) * multi
        a, b = collections.Counter(map(repr, got)), collections.Counter(map(repr, want))
        if a != b:
            bad(f"step chart: unexpected line {str(list(a - b)[:1])[:300]}, missing {str(list(b - a)[:1])[:300]}")

    def gantt(self, r, sim, names, bad, cnt):
        pool = list(sim.tops) + list(sim.acts.values()) + list(sim.objs.values())
        mode = r.choice(["objects", "activities", "mixed", "tops"])
        if mode == "objects":
            con = list(sim.objs.values())
        elif mode == "activities":
            con = list(sim.acts.values())
        elif mode == "tops":
            con = list(sim.tops)
        else:
            con = list({id(o): o for o in r.sample(pool, r.randint(1, len(pool)))}.values())
        r.shuffle(con)
        full = [o for o in con if o.logbook]
        if not full:
            return
        idm, kw = {}, {}
        w = r.random()
        if w < 0.3:
            idm, kw["id_map"] = names, list(sim.tops)
        elif w < 0.45:
            idm, kw["id_map"] = names, {t.name: t for t in sim.tops}
        elif w < 0.65:
            idm = kw["id_map"] = {i: f"label of {n}" for i, n in names.items()}
        numbers = r.random() < 0.3
        if numbers:
            kw["y_scale"] = "numbers"
        arg = con if r.random() < 0.7 else {o.name: o for o in con}
        ch = ocplot.get_gantt_chart(arg, static=True, **kw)
        want = collections.defaultdict(list)
        for k, o in enumerate(full):
            for e in o.logbook:
                want[e["ActivityID"]]
            for i, a, b in exports.executions(o.logbook) or ():
                if b is not None:
                    cnt["structural bars"] += exports.part(a) is not None
                    want[i].append(((str(-k if numbers else o.name),), a["Timestamp"], b["Timestamp"]))
        known = {a.id for o in con for a in self.tree(o)}
        seen = set()
        by = collections.defaultdict(set)
        for i in want:
            for lab in ({idm.get(i)} | ({names[i]} if i in known else set())) - {None} or {i}:
                by[lab].add(i)
        for tr in ch["data"]:
            ids = by.get(tr.name, ())
            if len(ids) != 1:
                bad(f"Gantt chart ({mode}): a trace is named {tr.name}")
                return
            (i,) = ids
            seen.add(i)
            got = bars(tr)
            cnt["bars"] += len(got)
            a, b = collections.Counter(got), collections.Counter(want[i])
            if a != b:
                bad(f"Gantt chart ({mode}): {len(got)} bars of {names[i]}, {len(want[i])} executions; "
                    f"unexpected {str(list((a - b)))[:300]}, missing {str(list((b - a)))[:300]}")
        if set(want) - seen:
            bad(f"Gantt chart ({mode}): no trace for {[names[i] for i in set(want) - seen]}")
        ts = [e["Timestamp"] for o in full for e in o.logbook]
        rg = [val(pd.Timestamp(x)) for x in ch["layout"].xaxis.range]
        if rg != [min(ts), max(ts)]:
            bad(f"Gantt chart ({mode}): time axis {rg}, logs {min(ts)} to {max(ts)}")

    def tree(self, o):
        yield o
        for s in o.__dict__.get("sub_processes") or ():
            yield from self.tree(s)
