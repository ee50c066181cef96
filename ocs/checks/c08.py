"""C08: amounts of transfers in random models, and refusals of transfers that may not happen."""

import random

from .. import gen, oracles, runner
from ..build import Sim
from .sim import GEN, HANDOVER, TRANSPORT, YARD, SimCheck, mix


def offset(r, xy, lo, hi):
    """A point at a distance between lo and hi metres of xy."""
    while True:
        d = r.uniform(lo, hi) / 111320.0
        p = (xy[0] + r.choice([-1, 1, 0]) * d, xy[1] + r.choice([-1, 1, 0]) * d)
        if lo < oracles.dist(xy, p) < hi:
            return p


class CHECK(SimCheck):
    id = "C08"
    facets = ("amount", "place", "malformed:shift")
    funcs = ("timing",)
    parts = TRANSPORT + YARD + HANDOVER[:1]
    main = ("shift",)
    needs = ("shift", "shift-contended", "refused: place", "refused: phase", "accepted", "refused: moved away")
    rule = GEN + (
        "Refusal family: a transfer with processor, origin and destination 0 to 99.5 m or 100.5 m to 400 km apart, out "
        "of place at construction or after an earlier move of its vessel, with or without duration and phase, alone "
        "or in a tree, for any content kind. Non-trivial: a transfer was made or refused.")

    def jobs(self, tier, seed):
        j = mix([], self.parts, 5000 if tier == "quick" else 60000, seed, self.id)
        n = 2500 if tier == "quick" else 30000
        return j + [dict(fam="refuse", seed=f"{seed}:refuse:{i}") for i in range(n)]

    def work(self, job):
        if job.get("fam") != "refuse":
            return super().work(job)
        r = random.Random(job["seed"])
        g = gen.G(r, ties=r.random() < 0.3)
        xy = g.pos()
        multi = g.p(0.4)
        cids = ["default"] if not multi else r.choice(gen.KINDS)[:2]
        cap, lvl = g.amount(10, 40), g.amount(1, 9)

        def ms():
            return [dict(id=c, capacity=cap, level=lvl) for c in cids] if multi else None

        wrong = r.choice(["ok", "proc", "dest", "both", "phase", "moved"])
        far = {}
        for w in ("proc", "dest"):
            if wrong in (w, "both"):
                far[w] = offset(r, xy, 100.5, r.choice([105, 200, 1000, 4e5]))
            else:
                far[w] = offset(r, xy, 0.01, 99.5) if g.p(0.5) else xy
        org = g.site(xy, cap, lvl, multi=ms())
        kind = r.choice(["crane", "origin", "dest", "vessel"])
        other = None
        if kind == "dest":
            dst = g.vessel(far["dest"], cap, lvl, multi=ms())
            proc = dst
            bad_proc = oracles.dist(xy, far["dest"]) >= 100
        else:
            dst = g.site(far["dest"], cap, lvl, multi=ms())
            if kind == "origin":
                g.objs.remove(org)
                org = g.vessel(xy, cap, lvl, multi=ms())
                proc = org
                bad_proc = False
            elif kind == "vessel":
                proc = g.vessel(far["proc"], cap, lvl, multi=ms())
                bad_proc = wrong in ("proc", "both")
            else:
                proc = g.crane(far["proc"])
                bad_proc = wrong in ("proc", "both")
        bad = bad_proc or wrong in ("dest", "both")
        cid = r.choice(cids)
        k = dict(cid=cid) if multi else {}
        if g.p(0.5):
            k["amount"] = r.choice([g.amount(1, 50), lvl, lvl / 2, 2 * lvl])
        n = g.shift(proc, org, dst, r.choice(["loading", "unloading", None]), **k)
        if wrong == "phase":
            n.pop("dur", None)
            n.pop("phase", None)
            if g.p(0.3):
                n["phase"] = r.choice(["Loading", "load", ""])
            bad = True
        pre = []
        if wrong == "moved" and kind in ("dest", "origin", "vessel"):
            # the vessel is under way when the transfer becomes ready, or has left before
            v = proc
            away = g.site(offset(r, xy, 201, r.choice([250, 2000, 1e5])), 5.0, 1.0)
            m = g.move(v, away, dur=g.dur(zero=False) + 1)
            if g.p(0.5):
                pre = [m]
            else:
                other = m
                n["se"] = {"t": m["dur"] * r.choice([0.25, 0.5, 1.5])} if g.p(0.7) else None
                if n["se"] is None:
                    del n["se"]
            bad = True
        elif g.p(0.4):
            pre = [dict(k="basic", n=g.name("b"), dur=g.dur())]
        if g.p(0.2):
            g.decorate(n, delay=0.5, probes=0.5)
        top = n
        if pre or g.p(0.3):
            top = dict(k="seq", n=g.name("seq"), subs=pre + [n])
            if g.p(0.3):
                top = dict(k="par", n=g.name("par"), subs=[top])
        # the move asks for the vessel first
        g.acts = ([other] if other else []) + [top]
        if g.p(0.4):
            g.acts.append(dict(k="basic", n=g.name("b"), dur=g.dur()))
        spec = g.spec()
        spec.pop("later", 0)
        sim = Sim(spec).run()
        issues, cnt = [], {}
        if sim.hang:
            return dict(inconclusive="wall-clock watchdog")

        def bad_(t):
            issues.append([None, f"[refusal] {wrong}/{kind}: {t}"])

        lv0 = {q: v for q, v in sim.init_levels.items() if not q[1].endswith("_reservations")}
        lv1 = {q: v for q, v in sim.levels().items() if not q[1].endswith("_reservations")}
        if bad:
            if sim.outcome != "error":
                bad_(f"the simulation ended with {sim.outcome}, no error was raised")
            if lv0 != lv1:
                bad_(f"levels changed from {lv0} to {lv1} although the transfer is not allowed")
            cnt["refused: moved away" if wrong == "moved" else "refused: phase" if wrong == "phase" else "refused: place"] = 1
            cnt["error " + type(sim.error).__name__] = 1
        else:
            if sim.outcome != "done":
                bad_(f"the transfer is in place but the simulation ended with {sim.outcome}: {sim.error}")
            want = min([lvl, cap - lvl] + ([k["amount"]] if "amount" in k else [])) * spec.get("scale", 1)
            if want > 0 and sim.outcome == "done":
                exp = dict(lv0)
                exp[(org["n"], cid)] -= want
                exp[(dst["n"], cid)] += want
                if any(abs(exp[q] - lv1[q]) > 1e-9 for q in exp):
                    bad_(f"levels {lv1}, expected {exp}")
            cnt["accepted"] = 1
        cnt["events"] = sim.env.nsteps
        return dict(issues=issues, counters=cnt, sig=runner.sig((wrong, kind, multi, [type(sim.error).__name__], n.get("phase"))),
                    nontrivial=True)
