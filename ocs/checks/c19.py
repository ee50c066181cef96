"""C19: single run processes against a reference model of the whole cycle."""

import random

from .. import gen, oracles, runner
from ..boot import model
from ..build import Sim
from ..trace import close, ts

PARTS = ("sailing empty", "loading", "sailing filled", "unloading")


def speed(o, fill):
    v = o["v"]
    # moves are made with their own engine order, which is one here
    return v[1] if v[0] == "const" else fill * (v[2] - v[1]) + v[1]


def proc_time(p, phase, amount, x0):
    ld = phase == "loading"
    r = p.get("lr" if ld else "ur", 1)
    man = p.get("lm" if ld else "um", 0) * 60
    if isinstance(r, (int, float)):
        return amount / r + man
    x1 = x0 + amount if ld else x0 - amount
    return r[1] * abs(x1 - x0) + r[2] * abs(x1 * x1 - x0 * x0) / 2 + man


class CHECK(runner.Check):
    id = "C19"
    technique = "recorded executions of single_run_process compared with a reference model, entry by entry"
    rule = ("Single run processes with one vessel (loader and unloader a crane or the vessel; contents smaller, equal to "
            "and larger than the destination's space; any vessel capacity; part filled vessels; start conditions by "
            "time and by other activities; default stop, container, time and activity stop conditions) whose complete "
            "log is predicted; and with two to four vessels sharing sites, for order, roles and conservation. "
            "Non-trivial: at least two trips; distinct by the log entries of the vessel.")
    needs = ("trip", "moved all", "stop:default", "stop:container", "stop:time", "stop:activity", "destination smaller",
             "several vessels")

    def jobs(self, tier, seed):
        n = dict(quick=(3500, 800), thorough=(45000, 12000))[tier]
        return [dict(kind=k, seed=f"{seed}:{k}:{i}") for k, m in zip(("one", "many"), n) for i in range(m)]

    def work(self, job):
        r = random.Random(job["seed"])
        g = gen.G(r, ties=r.random() < 0.2)
        return (self.one if job["kind"] == "one" else self.many)(job, r, g)

    def setup(self, r, g, nv):
        a, b = r.sample(gen.BASE, 2) if g.p(0.85) else r.sample(gen.BASE + gen.FAR, 2)
        q = lambda lo, hi: r.randint(lo * 4, hi * 4) / 4  # noqa: E731
        cap = q(1, 12)
        L = q(1, 40) if g.p(0.7) else cap * r.randint(1, 6)
        w = r.random()
        S = L if w < 0.3 else L + q(1, 20) if w < 0.65 else max(0.25, L - q(0, 20))
        src = g.site(a, L + r.choice([0, 5.0]), L)
        d0 = r.choice([0.0, 2.0])
        dst = g.site(b, S + d0, d0)
        cl = g.crane(g.near(a)) if g.p(0.35) else None
        cu = g.crane(g.near(b)) if g.p(0.35) else None
        vs = []
        for _ in range(nv):
            c = cap if g.p(0.7) else q(1, 12)
            v = g.vessel(r.choice([a, b, g.pos()]), c, 0.0)
            if g.p(0.2):
                v["eo"] = r.choice([0.5, 0.8, 1.1])
            vs.append(v)
        return a, b, src, dst, cl, cu, vs, L, S

    def make(self, sim, name, src, dst, v, ld, ul, **kw):
        o = sim.objs
        return model.single_run_process(
            env=sim.env, registry=sim.registry, name=name, origin=o[src["n"]], destination=o[dst["n"]],
            mover=o[v["n"]], loader=o[ld["n"]], unloader=o[ul["n"]], **kw)

    def one(self, job, r, g):
        a, b, src, dst, cl, cu, (v,), L, S = self.setup(r, g, 1)
        if g.p(0.12):
            v["lvl"] = r.randint(0, int(v["cap"] * 4) - 1) / 4
        ld, ul = cl or v, cu or v
        stop = r.choice(["default", "default", "default", "container", "time", "activity", "both"])
        t0 = r.choice([0, 0, 0, 1.6e9])
        sim = Sim(dict(objs=g.objs, reporters=[], acts=[], t0=t0))
        kw, side = {}, []
        start = t0
        w = r.random()
        if w < 0.25:
            start = t0 + g.dur(500)
            kw["start_event"] = r.choice([{"type": "time", "start_time": start}, [{"type": "time", "start_time": start}]])
        elif w < 0.45:
            d = g.dur(500)
            start = t0 + d
            side.append(model.BasicActivity(env=sim.env, registry=sim.registry, name="before", duration=d))
            kw["start_event"] = [{"type": "activity", "name": "before", "state": "done"}]
            if g.p(0.5):
                start = t0 + max(d, e := g.dur(500))
                kw["start_event"].insert(r.randint(0, 1), {"type": "time", "start_time": t0 + e})
        M = min(L, S)
        holds = None
        limit = None
        if stop == "container":
            x = r.choice([M * r.random(), M])
            if g.p(0.5):
                x += dst["lvl"]
                kw["stop_event"] = [{"type": "container", "concept": sim.objs[dst["n"]], "state": "ge", "level": x}]
                holds = lambda o_, d_: d_ >= x  # noqa: E731
            else:
                x = L - x
                kw["stop_event"] = {"type": "container", "concept": sim.objs[src["n"]], "state": "le", "level": x}
                holds = lambda o_, d_: o_ <= x  # noqa: E731
        elif stop == "time":
            limit = start + g.dur(2000)
            kw["stop_event"] = [{"type": "time", "start_time": limit}]
        elif stop == "both":
            d, d2 = start - t0 + g.dur(2000), start - t0 + g.dur(2000)
            limit = t0 + max(d, d2)
            side.append(model.BasicActivity(env=sim.env, registry=sim.registry, name="other", duration=d))
            kw["stop_event"] = [{"type": "activity", "name": "other", "state": "done"},
                                {"type": "time", "start_time": t0 + d2}]
            if g.p(0.5):
                kw["stop_event"].reverse()
        elif stop == "activity":
            d = start - t0 + g.dur(2000)
            limit = t0 + d
            side.append(model.BasicActivity(env=sim.env, registry=sim.registry, name="other", duration=d))
            kw["stop_event"] = {"type": "activity", "name": "other", "state": "done"}
        else:
            if g.p(0.3):
                kw["stop_event"] = []
            cap = dst["cap"]
            holds = lambda o_, d_: o_ <= 0 or d_ >= cap  # noqa: E731
        rr = {}
        if g.p(0.5):
            kw["requested_resources"] = rr
        name = r.choice(["run", "single run", "x"])
        run, loop = self.make(sim, name, src, dst, v, ld, ul, **kw)
        sim.tops = side + [loop] if g.p(0.5) else [loop] + side
        for k, x_ in enumerate(run):
            sim.acts[f"p{k}"] = x_
        sim._watched.update({("a", f"p{k}"): x_ for k, x_ in enumerate(run)})
        sim._loglen.update({("a", f"p{k}"): 0 for k in range(4)})
        sim.run()
        if sim.hang:
            return dict(inconclusive="wall-clock watchdog")
        # ---- prediction
        t, lo, lv, ldst, pos = start, L, v["lvl"], dst["lvl"], v["xy"]
        want, trips, refused, occurred, tie = [], 0, False, False, False
        if holds and holds(lo, ldst):
            occurred = True
        while True:
            for k in range(4):
                t1 = t
                if k in (0, 2):
                    to = src["xy"] if k == 0 else dst["xy"]
                    t += oracles.dist(pos, to) / speed(v, lv / v["cap"])
                    pos = to
                    want.append((k, t1, t, lv, lv))
                else:
                    amt = min(lo, v["cap"] - lv) if k == 1 else min(lv, dst["cap"] - ldst)
                    if amt <= 0:
                        refused = True
                        break
                    t += proc_time(ld if k == 1 else ul, PARTS[k], amt, lv)
                    want.append((k, t1, t, lv, lv + amt if k == 1 else lv - amt))
                    if k == 1:
                        lo, lv = lo - amt, lv + amt
                    else:
                        ldst, lv = ldst + amt, lv - amt
                    if holds and holds(lo, ldst):
                        occurred = True
            if refused:
                break
            trips += 1
            if limit is not None:
                if close(limit, t):
                    tie = True
                    break
                occurred = limit <= t
            if occurred or trips > 200:
                break
        if tie or trips > 200:
            return dict(counters={"undecided": 1}, nontrivial=False)
        # ---- comparison
        issues = []

        def bad(x):
            issues.append([None, f"[{stop}] {x}"])

        if refused:
            if sim.outcome != "error":
                bad(f"transfer {len(want)} has nothing to move, but the simulation ended with {sim.outcome}")
        elif sim.outcome != "done":
            bad(f"ended with {sim.outcome}: {sim.error}")
        ids = {x_.id: k for k, x_ in enumerate(run)}
        if [x_.name for x_ in run] != [f"{name} {p}" for p in PARTS] or loop.name != name:
            bad(f"activities are named {[x_.name for x_ in run]}, {loop.name}")
        got = [e for e in sim.objs[v["n"]].logbook]
        flat = []
        for k, t1, t2, l1, l2 in want:
            flat += [(k, "START", t1, l1), (k, "STOP", t2, l2)]
        if len(got) != len(flat):
            bad(f"the vessel logs {len(got)} entries, {len(flat)} are due for {trips} trips of {v['cap']} to move "
                f"min({L}, {S})")
        for e, (k, st, tt, lvl) in zip(got, flat):
            have = (ids.get(e["ActivityID"]), e["ActivityState"])
            if have != (k, st):
                bad(f"vessel logs {have} at {ts(e)}, expected {(k, st)} at {tt}")
                break
            # durations accumulate in floating point
            if abs(ts(e) - tt) > 1e-5 + 1e-9 * abs(tt - t0):
                bad(f"{PARTS[k]} {st} at {ts(e)}, expected {tt}")
                break
            if abs(e["ObjectState"]["container level"] - lvl) > 1e-9:
                bad(f"{PARTS[k]} {st} with level {e['ObjectState']['container level']}, expected {lvl}")
                break
            g_ = e["ObjectState"]["geometry"]
            at = src["xy"] if (k, st) in ((0, "STOP"), (1, "START"), (1, "STOP"), (2, "START")) else dst["xy"]
            if (k, st) != (0, "START") and (g_.x, g_.y) != tuple(at):
                bad(f"{PARTS[k]} {st} at {(g_.x, g_.y)}, expected {at}")
                break
        if not refused:
            for o_, ks in ((src, [1]), (dst, [3]), (cl, [1]), (cu, [3])):
                if o_ is None:
                    continue
                logs = [ids.get(e["ActivityID"]) for e in sim.objs[o_["n"]].logbook]
                if logs != ks * (2 * trips):
                    bad(f"{o_['n']} takes part in {logs[:12]}, expected {ks * (2 * trips)}")
            fin = [sim.objs[x["n"]].container.get_level() for x in (src, v, dst)]
            if any(abs(p - q) > 1e-9 for p, q in zip(fin, (lo, lv, ldst))):
                bad(f"final levels origin, vessel, destination {fin}, expected {(lo, lv, ldst)}")
            if stop == "default" and v["lvl"] == 0:
                moved = fin[2] - dst["lvl"]
                if abs(moved - M) > 1e-9 or trips != -(-M // v["cap"]):
                    bad(f"moved {moved} in {trips} trips; minimum is {M}, {-(-M // v['cap'])} trips")
            main = [e for e in loop.logbook if e["ActivityLabel"].get("type") != "subprocess"]
            st = [(e["ActivityState"], ts(e)) for e in main if not e["ActivityState"].startswith("WAIT")]
            if [s for s, _ in st] != ["START", "STOP"] or abs(st[0][1] - start) > 1e-5 or abs(st[1][1] - t) > 1e-5 + 1e-9 * abs(t - t0):
                bad(f"the process ran {st}, expected {start} to {t}")
        cnt = {"trip": trips, "stop:" + stop: 1, "events": sim.env.nsteps, "entries": len(got)}
        if stop == "default":
            cnt["moved all"] = 1
        if S < L:
            cnt["destination smaller"] = 1
        if refused:
            cnt["refused"] = 1
        return dict(issues=issues, counters=cnt, nontrivial=trips > 1,
                    sig=runner.sig([(k, round(t1 - t0, 3), round(l2, 3)) for k, t1, _, _, l2 in want]),
                    sample=dict(job=job, trips=trips, origin=L, space=S, vessel=v["cap"], stop=stop, end=t))

    def many(self, job, r, g):
        nv = r.randint(2, 4)
        a, b, src, dst, cl, cu, vs, L, S = self.setup(r, g, nv)
        src["nr"] = dst["nr"] = r.choice([1, 1, 2])
        sim = Sim(dict(objs=g.objs, reporters=[], acts=[]))
        runs = []
        sim.tops = []
        for i, v in enumerate(vs):
            kw = dict(requested_resources={}) if g.p(0.5) else {}
            if g.p(0.3):
                kw["start_event"] = {"type": "time", "start_time": g.dur(300)}
            run, loop = self.make(sim, f"run {i}", src, dst, v, cl or v, cu or v, **kw)
            runs.append((v, run, loop))
            sim.tops.append(loop)
        sim.run()
        if sim.hang:
            return dict(inconclusive="wall-clock watchdog")
        issues = []

        def bad(x):
            issues.append([None, f"[{nv} vessels] {x}"])

        lev = lambda o: sim.objs[o["n"]].container.get_level()  # noqa: E731
        if sim.outcome == "error":
            if not (isinstance(sim.error, ValueError) and "shift content" in str(sim.error)
                    and (lev(src) <= 0 or lev(dst) >= dst["cap"])):
                bad(f"{type(sim.error).__name__} at {sim.env.now}: {sim.error}; levels {lev(src)}, {lev(dst)}")
        elif sim.outcome != "done":
            bad(f"ended with {sim.outcome}")
        else:
            if lev(src) > 0 and lev(dst) < dst["cap"]:
                bad(f"stopped with {lev(src)} in the origin and {dst['cap'] - lev(dst)} space in the destination")
            if abs(lev(src) + lev(dst) + sum(lev(v) for v, _, _ in runs) - L - dst["lvl"]) > 1e-9:
                bad("content is not conserved")
        trips, seq = 0, []
        for v, run, loop in runs:
            ids = {x.id: k for k, x in enumerate(run)}
            got = [(ids.get(e["ActivityID"]), e["ActivityState"]) for e in sim.objs[v["n"]].logbook]
            want = [(k % 4, s) for k in range(len(got)) for s in ("START", "STOP")][: len(got)]
            if got != want or (sim.outcome == "done" and len(got) % 8):
                bad(f"{v['n']} logs {got[:12]}, expected {want[:12]}")
            trips += len(got) // 8
            seq.append([round(ts(e), 3) for e in sim.objs[v["n"]].logbook])
            mine = set(ids)
            for o, ks in ((cl, {1}), (cu, {3})):
                if o is not None and len(got) >= 8:
                    ks_ = {ids[e["ActivityID"]] for e in sim.objs[o["n"]].logbook if e["ActivityID"] in mine}
                    if ks_ != ks:
                        bad(f"{o['n']} takes part in {ks_}")
        return dict(issues=issues, nontrivial=trips > 1, sig=runner.sig(seq),
                    counters={"trip": trips, "several vessels": 1, "events": sim.env.nsteps, "outcome:" + sim.outcome: 1})
