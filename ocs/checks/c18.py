"""C18: registration in any order; duplicates and circular references are rejected."""

import copy
import random

from .. import gen, oracles, runner
from ..build import Sim
from ..trace import Malformed, Trace, segment
from .sim import STRUCT, TRANSPORT


def preorder(acts):
    for n in acts:
        yield n
        yield from preorder(n.get("subs", []))


class CHECK(runner.Check):
    id = "C18"
    technique = "monitored executions of permuted registrations; counts of executions per activity judged against the tree"
    rule = ("Sets of activity trees, with start conditions that refer forwards and backwards by name and id, registered "
            "in several listing orders (as written, reversed, shuffled, siblings of parallel activities shuffled, "
            "chains of up to 160 references in reverse); duplicate names at any two places; reference cycles of "
            "length one to six through lists, and, or, parents and sub-activities; acyclic near misses (an or with one "
            "alternative outside the cycle). Non-trivial: more than one activity was executed or a rejection was due.")
    needs = ("executions", "forward reference", "duplicate rejected", "circular rejected", "acyclic accepted", "chain")

    def jobs(self, tier, seed):
        n = dict(quick=(1500, 700, 700, 16), thorough=(20000, 8000, 8000, 80))[tier]
        j = []
        for kind, m in zip(("order", "dup", "circ", "chain"), n):
            j += [dict(kind=kind, seed=f"{seed}:{kind}:{i}") for i in range(m)]
        return j

    def work(self, job):
        r = random.Random(job["seed"])
        return getattr(self, job["kind"])(job, r)

    # every activity once, in any order of registration
    def order(self, job, r):
        fam, kw, _ = r.choice(STRUCT[:2] + STRUCT[3:5] + [("struct", dict(se=0.6), 1), ("struct", dict(se=0.6), 1)] + TRANSPORT[:1])
        kw = dict(kw)
        if fam == "struct":
            kw.update(never=0.0, shuffle=False)
        spec = getattr(gen, fam)(r, **kw)
        issues, cnt = [], dict(executions=0, orders=0)
        sigs = []
        for o in range(3):
            s = copy.deepcopy(spec)
            if o == 1:
                s["acts"].reverse()
            elif o == 2:
                r.shuffle(s["acts"])
                for n in preorder(s["acts"]):
                    if n["k"] == "par" and fam == "struct":
                        r.shuffle(n["subs"])
            sim = Sim(s).run()
            if sim.hang:
                return dict(inconclusive="wall-clock watchdog")
            if sim.outcome == "error" and isinstance(sim.error, ValueError) and "shift content" in str(sim.error):
                continue  # a refused transfer ends a simulation; other checks judge that
            cnt["orders"] += 1
            cnt["events"] = cnt.get("events", 0) + sim.env.nsteps
            if sim.outcome != "done":
                issues.append([None, f"order {o}: ended with {sim.outcome} {type(sim.error).__name__}: {str(sim.error)[:200]}"])
                continue
            self.count(sim, s, o, issues, cnt)
            sigs.append(sorted((a, len(x.logbook)) for a, x in sim.acts.items()))
            pos = {n["n"]: i for i, n in enumerate(preorder(s["acts"]))}

            def refs(e):
                if isinstance(e, list):
                    return [y for x in e for y in refs(x)]
                if isinstance(e, dict):
                    if "a" in e:
                        return [e["a"]]
                    return refs(e.get("and", [])) + refs(e.get("or", []))
                return []

            for n in preorder(s["acts"]):
                if any(pos[x] > pos[n["n"]] for x in refs(n.get("se"))):
                    cnt["forward reference"] = cnt.get("forward reference", 0) + 1
        return dict(issues=issues, counters=cnt, sig=runner.sig(sigs), nontrivial=cnt["executions"] > 1,
                    sample=dict(job=job, executions=cnt["executions"], orders=cnt["orders"]))

    def count(self, sim, s, o, issues, cnt):
        def runs(n):
            own = sim.acts[n["n"]]
            return [sum(1 for e in own.logbook if e["ActivityState"] == st and e["ActivityLabel"].get("type") != "subprocess")
                    for st in ("START", "STOP")]

        def go(n, want):
            a, b = runs(n)
            cnt["executions"] += a
            if (a, b) != (want, want):
                issues.append([None, f"order {o}: {n['n']} ({n['k']}) started {a} and stopped {b} times, expected {want}"])
                return
            kids = n.get("subs", [])
            if n["k"] == "rep":
                want *= n["reps"]
            elif n["k"] == "while":
                want = runs(kids[0])[0]
                if want < a:
                    issues.append([None, f"order {o}: {n['n']} ran {a} times, its first sub-activity {want} times"])
            for c in kids:
                go(c, want)

        for n in s["acts"]:
            go(n, 1)

    def dup(self, job, r):
        spec = gen.struct(r, never=0.0, ntop=r.randint(2, 3))
        ns = [n for n in preorder(spec["acts"])]
        if len(ns) < 2:
            return dict(counters={}, nontrivial=False)
        sim = Sim(spec)
        a, b = r.sample([n["n"] for n in ns], 2)
        sim.acts[a].name = sim.acts[b].name
        err = self.attempt(sim)
        issues = []
        if err is None:
            issues.append([None, f"two activities named {sim.acts[b].name} ({a} and {b}) were registered without an error"])
        ran = [x for x, act in sim.acts.items() if act.logbook]
        if ran and err is not None and not issues:
            issues.append([None, f"activities {ran[:5]} ran although the registration was rejected"])
        return dict(issues=issues, counters={"duplicate rejected": int(err is not None)}, nontrivial=True,
                    sig=runner.sig(("dup", len(ns), type(err).__name__)))

    def attempt(self, sim):
        from ..boot import model
        from ..build import Watchdog

        with Watchdog(20):
            try:
                model.register_processes(sim.tops)
                sim.env.run()
            except Exception as e:  # noqa: BLE001
                return e
        return None

    def circ(self, job, r):
        """A random reference structure; whether all can run is decided by a fixpoint."""
        k = r.randint(1, 6)
        cyc = [f"c{i}" for i in range(k)]
        free = [f"f{i}" for i in range(r.randint(0, 3))]
        near = r.random() < 0.4

        def ref(a):
            return {"a": a, "by": r.choice(["name", "id"])}

        acts = {}
        esc = r.randrange(k)
        for i, c in enumerate(cyc):
            e = ref(cyc[(i + 1) % k])
            if near and i == esc:
                alt = ref(r.choice(free)) if free and r.random() < 0.6 else {"t": float(r.randint(0, 9))}
                e = {"or": r.sample([e, alt], 2)}
            else:
                w = r.random()
                other = [ref(r.choice(free))] if free and r.random() < 0.5 else [{"t": float(r.randint(0, 9))}]
                if w < 0.3:
                    e = r.sample([e] + other, 2)
                elif w < 0.6:
                    e = {"and": r.sample([e] + other, 2)}
                elif w < 0.7:
                    e = {"or": [e]}
                elif w < 0.8:
                    e = [{"or": [e, [e]]}]
            acts[c] = dict(k="basic", n=c, dur=float(r.randint(1, 5)), se=e)
        for f in free:
            acts[f] = dict(k="basic", n=f, dur=float(r.randint(0, 5)))
        tops = list(acts.values())
        # bury some in trees
        for i in range(len(tops)):
            w = r.random()
            if w < 0.2:
                tops[i] = dict(k="par", n=f"w{i}", subs=[tops[i], dict(k="basic", n=f"x{i}", dur=1.0)])
            elif w < 0.4:
                tops[i] = dict(k=r.choice(["seq", "rep"]), n=f"w{i}", reps=2, subs=[dict(k="basic", n=f"x{i}", dur=1.0), tops[i]])
            elif w < 0.5 and tops[i].get("se") is not None:
                # the parent carries the condition
                t = tops[i]
                se = t.pop("se")
                tops[i] = dict(k="seq", n=f"w{i}", se=se, subs=[t])
        r.shuffle(tops)
        spec = dict(objs=[], reporters=[], acts=tops)
        sim = Sim(spec)
        err = self.attempt(sim)
        ran = {n for n, a in sim.acts.items() if any(e["ActivityState"] == "STOP" for e in a.logbook)}
        issues = []
        if near:
            if err is not None:
                issues.append([None, f"no circular reference, but {type(err).__name__}: {err}"])
            elif len(ran) < len(sim.acts):
                issues.append([None, f"no circular reference, but {sorted(set(sim.acts) - ran)} never ran"])
        elif err is None:
            issues.append([None, f"circular references {cyc} were accepted; {sorted(set(sim.acts) - ran)} never ran"])
        return dict(issues=issues, nontrivial=True,
                    counters={"circular rejected": int(not near and err is not None), "acyclic accepted": int(near and err is None)},
                    sig=runner.sig(("circ", near, k, sorted(n["k"] for n in preorder(tops)))))

    def chain(self, job, r):
        n = r.randint(90, 160)
        acts = [dict(k="basic", n="a0", dur=1.0)]
        for i in range(1, n):
            acts.append(dict(k="basic", n=f"a{i}", dur=1.0, se={"a": f"a{i-1}", "by": r.choice(["name", "id"])}))
        m = r.choice(["reverse", "shuffle"])
        acts.reverse() if m == "reverse" else r.shuffle(acts)
        sim = Sim(dict(objs=[], reporters=[], acts=acts)).run()
        if sim.hang:
            return dict(inconclusive="wall-clock watchdog")
        issues = []
        if sim.outcome != "done":
            issues.append([None, f"chain of {n} references, {m}: {sim.outcome} {sim.error}"])
        elif sim.env.now != n:
            issues.append([None, f"chain of {n} references, {m}: ended at {sim.env.now}"])
        return dict(issues=issues, counters=dict(chain=1, events=sim.env.nsteps), nontrivial=True, sig=runner.sig(("chain", n, m)))
