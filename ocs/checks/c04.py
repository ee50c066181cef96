"""C04: histories of puts, gets and condition requests on the real EventsContainer."""

import operator
import random

from .. import gen, runner
from ..boot import core, simpy

OPS = {"gt": operator.gt, "ge": operator.ge, "lt": operator.lt, "le": operator.le}


class Env(simpy.Environment):
    nsteps = 0
    mon = None

    def step(self):
        super().step()
        self.nsteps += 1
        if self.mon:
            self.mon()


class _H(core.HasContainer):
    pass


class _M(core.HasMultiContainer):
    pass


class CHECK(runner.Check):
    id = "C04"
    technique = "online monitor of every container event against a level history kept by the monitor"
    rule = ("Random histories on HasContainer/HasMultiContainer: several processes put, get and ask for conditions "
            "(all four operators, empty, full; few thresholds so that they are shared, crossed repeatedly and asked for "
            "again), several operations per instant, waiters that ask again when served. Non-trivial: an event occurred "
            "later than it was asked for; distinct by the sequence of level changes and occurrences.")
    needs = ("at once", "later", "never", "asked again", "shared")

    def jobs(self, tier, seed):
        n = 40000 if tier == "quick" else 600000
        return [dict(seed=f"{seed}:C04:{i}") for i in range(n)]

    def work(self, job):
        r = random.Random(job["seed"])
        env = Env(initial_time=r.choice([0, 0, 3, 1.6e9]))
        multi = r.random() < 0.5
        ids = ["default"] if not multi else r.choice(gen.KINDS)[: r.randint(1, 3)]
        cap = float(r.randint(4, 10))
        fine = r.random() < 0.25  # levels and thresholds that differ by little
        many = r.choice([40, 40, 40, 160]) if r.random() < 0.1 else 1  # many thresholds at the same time
        near = [cap / 3 + d for d in (0, 1e-3, 2e-4, 1e-5)] + [x + d for x in (1, 2, 3) for d in (0, 1e-4, -1e-4)]
        init = {i: float(r.randint(0, int(cap))) for i in ids}
        if multi:
            h = _M(env=env, initials=[dict(id=i, capacity=cap, level=init[i]) for i in ids])
        else:
            h = _H(env=env, capacity=cap, level=init["default"])
        c = h.container
        every = ids + [i + "_reservations" for i in ids]
        model = {i: init[i.replace("_reservations", "")] for i in every}
        hist = {i: [(0, env.now, model[i])] for i in every}  # (step, time, level)
        asked = []  # dict(step,t,cond,ev,done)
        issues, cnt = [], dict.fromkeys(["at once", "later", "never", "asked again", "shared", "level", "same instant"], 0)
        seq = []

        def bad(t):
            issues.append([None, t])

        def levels():
            for i in every:
                got = c.get_level(i)
                cnt["level"] += 1
                if got != model[i]:
                    bad(f"level of {i} is {got} at {env.now}, puts and gets give {model[i]}")
                if c.get_capacity(i) != cap:
                    bad(f"capacity of {i} is {c.get_capacity(i)}, not {cap}")
            if sorted(c.container_list) != sorted(ids):
                bad(f"contents {c.container_list}, expected {ids}")

        def mon():
            if not issues:
                levels()
            for a in asked:
                if a["done"] is None and a["ev"].processed:
                    a["done"] = (env.nsteps, env.now)
                    seq.append(("occ", a["cond"], round(env.now, 3)))

        env.mon = mon

        def holds(cond, lv):
            i, x, op = cond
            return OPS[op](lv, x)

        def ask(depth=0):
            i = r.choice(every if r.random() < 0.2 else ids)
            k = r.random()
            if k < 0.15:
                cond, ev = (i, 0, "le"), c.get_empty_event(id_=i)
            elif k < 0.3:
                cond, ev = (i, cap, "ge"), c.get_full_event(id_=i)
            else:
                x = r.choice([1, 2, 3, cap / 2, cap - 1, 1.5])
                if fine:
                    x = r.choice(near)
                elif many > 1:
                    x = r.randint(0, int(16 * cap)) / 16
                op = r.choice(list(OPS))
                cond, ev = (i, x, op), c.get_container_event(level=x, operator=op, id_=i)
            if any(a["cond"] == cond and a["done"] is None for a in asked):
                cnt["shared"] += 1
            if any(a["cond"] == cond and a["done"] is not None for a in asked):
                cnt["asked again"] += 1
            a = dict(step=env.nsteps, t=env.now, cond=cond, ev=ev, done=None, nchg=len(hist[i]) - 1)
            if ev.processed:
                a["done"] = (env.nsteps, env.now)
            asked.append(a)
            if holds(cond, model[i]) and not ev.triggered:
                bad(f"{cond} asked at {env.now} at level {model[i]}: not triggered at once")
            return a

        def change():
            i = r.choice(every)
            q = r.choice([1.0, 1.0, 2.0, 0.5, 3.0])
            put = r.random() < (0.75 if model[i] <= 1 else 0.25 if model[i] >= cap - 1 else 0.5)
            if fine and r.random() < 0.5:
                x = r.choice(near) - model[i]
                q, put = abs(x) or q, x > 0
            model[i] += q if put else -q
            ev = (c.put if put else c.get)(q, i) if r.random() < 0.5 else (c.put if put else c.get)(amount=q, id_=i)
            hist[i].append((env.nsteps, env.now, model[i]))
            seq.append(("chg", i, model[i]))
            return ev

        def actor():
            for _ in range(many - 1):
                ask()
            for _ in range(r.randint(2, 10) if r.random() < 0.97 else r.randint(40, 90)):
                k = r.random()
                if k < 0.35:
                    yield env.timeout(r.choice([1, 1, 2, 0.5, 0]))
                elif k < 0.7:
                    ev = change()
                    if r.random() < 0.6:
                        yield ev
                    if r.random() < 0.3:
                        ev = change()
                        yield ev
                else:
                    ask()

        def waiter():
            for _ in range(r.randint(1, 4)):
                a = ask()
                yield a["ev"]
                cnt["resumed"] = cnt.get("resumed", 0) + 1
                if r.random() < 0.4:
                    change()
                if r.random() < 0.3:
                    yield env.timeout(r.choice([0, 1, 2]))

        for _ in range(r.randint(1, 4)):
            env.process(actor())
        for _ in range(r.randint(0, 3)):
            env.process(waiter())
        try:
            env.run()
        except Exception as e:  # noqa: BLE001
            bad(f"{type(e).__name__}: {e} at {env.now}")
        levels()
        # judge every request: by instants, as the order within an instant is not specified
        for a in asked:
            i = a["cond"][0]
            h0 = hist[i]
            # level states from the request on: the one in force, then every later change
            k0 = a["nchg"]
            first = next((t for n, (s, t, lv) in enumerate(h0) if n >= k0 and holds(a["cond"], lv)), None)
            if first is not None:
                first = max(first, a["t"])
            # a state that lasts to the end of its instant
            lasting = None
            for n in range(k0, len(h0)):
                s, t, lv = h0[n]
                last = n + 1 == len(h0) or h0[n + 1][1] > max(t, a["t"])
                if last and holds(a["cond"], lv):
                    lasting = max(t, a["t"])
                    break
            before = any(t == a["t"] and holds(a["cond"], lv) for s, t, lv in h0[: k0 + 1]) or (
                h0[k0][1] == a["t"] and k0 > 0 and any(
                    h0[m][1] < a["t"] and (m + 1 == len(h0) or h0[m + 1][1] == a["t"]) and holds(a["cond"], h0[m][2])
                    for m in range(k0)))
            got = a["done"][1] if a["done"] else None
            if got is None:
                if lasting is not None:
                    bad(f"{a['cond']} asked at {a['t']}: never occurred although the level satisfies it at {lasting}")
                else:
                    cnt["never"] += 1
                continue
            # a state that lasts no time may or may not be noticed; one that lasts must be, at once
            touched = any(n >= k0 and max(t, a["t"]) == got and holds(a["cond"], lv)
                          for n, (s, t, lv) in enumerate(h0)) or (before and got == a["t"])
            if not touched or (lasting is not None and got > lasting):
                bad(f"{a['cond']} asked at {a['t']}: occurred at {got}, the level satisfies it first at {first}")
            elif got == a["t"]:
                cnt["at once"] += 1
            else:
                cnt["later"] += 1
            if before and got == a["t"] and first != a["t"]:
                cnt["same instant"] += 1
        cnt["events"] = env.nsteps
        cnt["requests"] = len(asked)
        return dict(issues=issues[:4], counters=cnt, sig=runner.sig(seq), nontrivial=cnt["later"] > 0,
                    sample=dict(job=job, history=[list(map(str, s)) for s in seq[:25]]) if cnt["later"] else None)
