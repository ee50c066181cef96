"""Turn the recorded event log of one simulation into executions of activities.

Everything here is derived from what was observed (logbook entries in the order
and at the simulation step at which they appeared, levels, resource users,
positions) plus the scenario; nothing looks at the implementation.
"""

import datetime
import math

EPOCH = datetime.datetime(1970, 1, 1)
INF = math.inf


def ts(entry):
    return (entry["Timestamp"] - EPOCH).total_seconds()


def tol(t):
    return 2e-6 + 1e-14 * abs(t)


def close(a, b):
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol(max(abs(a), abs(b)))


class Malformed(Exception):
    """An activity's own log does not have the shape of a succession of executions."""

    def __init__(self, act, why):
        super().__init__(f"log of activity {act}: {why}")
        self.act = act


class Ent:
    __slots__ = ("step", "now", "state", "ref", "typ", "e", "t", "idx")

    def __init__(self, step, now, idx, e):
        self.step, self.now, self.idx, self.e = step, now, idx, e
        self.state = e["ActivityState"]
        lab = e["ActivityLabel"] or {}
        self.ref, self.typ = lab.get("ref"), lab.get("type")
        self.t = ts(e)


class Ex:
    """One execution of one activity."""

    def __init__(self, act, idx):
        self.act, self.idx = act, idx
        self.w0 = None  # (start Ent, stop Ent): waiting for the start condition
        self.pre, self.post = [], []  # plugin waits: (start Ent, stop Ent or None)
        self.start = self.stop = None  # Ent
        self.subs = []  # [child id, start Ent, stop Ent or None]
        self.probes = []
        self.first_step = None

    @property
    def complete(self):
        return self.stop is not None and all(b for _, b in self.post) and self.probes_done

    probes_done = True

    @property
    def end(self):
        """(time, step) at which the execution was over, as far as observable."""
        t, s = self.stop.now, self.stop.step
        for _, b in self.post:
            if b is not None and b.step > s:
                t, s = b.now, b.step
        for p in self.probes:
            if p["phase"] in ("post", "post_done") and p["step"] > s:
                t, s = p["now"], p["step"]
        return t, math.ceil(s)

    @property
    def first(self):
        """(time, step) of the first sign of the execution after its conditions were met."""
        c = [(x.step, x.now) for x, _ in self.pre]
        c += [(p["step"], p["now"]) for p in self.probes if p["phase"] == "pre"]
        if self.start is not None:
            c.append((self.start.step, self.start.now))
        if not c:
            return None
        s, t = min(c)
        return t, math.ceil(s)


def segment(act, ents, sub_ids):
    """Split an activity's own log into executions; raises Malformed."""
    out = []
    cur = None

    def bad(why, en):
        raise Malformed(act, f"{why} (entry {en.idx}: {en.state} {en.ref} at {en.t})")

    for en in ents:
        if en.typ == "subprocess" and en.ref in sub_ids:
            if cur is None or cur.start is None or cur.stop is not None:
                bad("sub-activity entry outside start and stop", en)
            if en.state == "START":
                cur.subs.append([en.ref, en, None])
            elif en.state == "STOP":
                for s in cur.subs:
                    if s[0] == en.ref and s[2] is None:
                        s[2] = en
                        break
                else:
                    bad("stop of a sub-activity that did not start", en)
            else:
                bad("unexpected sub-activity state", en)
        elif en.state == "WAIT_START" and en.typ is None:
            if cur is not None and (cur.stop is None or not all(b for _, b in cur.post)):
                bad("start-condition wait inside an execution", en)
            cur = Ex(act, len(out))
            out.append(cur)
            cur.w0 = [en, None]
            cur.first_step = en.step
        elif en.state == "WAIT_STOP" and en.typ is None:
            if cur is None or cur.w0 is None or cur.w0[1] is not None or cur.start or cur.pre:
                bad("stray wait stop", en)
            cur.w0[1] = en
        elif en.state == "WAIT_START":
            if cur is not None and cur.start is not None and cur.stop is None:
                bad("plugin wait between start and stop", en)
            if en.ref == "delay":
                if cur is None or cur.stop is None:
                    bad("delay outside of the end of an execution", en)
                if cur.post and cur.post[-1][1] is None:
                    bad("nested waits", en)
                cur.post.append([en, None])
            else:
                if cur is None or cur.stop is not None:
                    cur = Ex(act, len(out))
                    out.append(cur)
                    cur.first_step = en.step
                if cur.pre and cur.pre[-1][1] is None:
                    bad("nested waits", en)
                cur.pre.append([en, None])
        elif en.state == "WAIT_STOP":
            lst = None
            if cur is not None:
                lst = cur.post if cur.stop is not None else cur.pre
            if not lst or lst[-1][1] is not None or lst[-1][0].ref != en.ref:
                bad("stray plugin wait stop", en)
            lst[-1][1] = en
        elif en.state == "START":
            if cur is not None and cur.start is not None and cur.stop is None:
                bad("start within an execution", en)
            if cur is None or cur.stop is not None:
                cur = Ex(act, len(out))
                out.append(cur)
                cur.first_step = en.step
            if cur.w0 is not None and cur.w0[1] is None:
                bad("start during a wait", en)
            if cur.pre and cur.pre[-1][1] is None:
                bad("start during a plugin wait", en)
            cur.start = en
        elif en.state == "STOP":
            if cur is None or cur.start is None or cur.stop is not None:
                bad("stop without start", en)
            for s in cur.subs:
                if s[2] is None:
                    bad("stop while a sub-activity is recorded as running", en)
            cur.stop = en
        else:
            bad("unknown state", en)
    return out


class Timeline:
    """A piecewise constant observable: value after each step."""

    def __init__(self):
        self.pts = []  # (step, time, value)

    def add(self, step, t, v):
        self.pts.append((step, t, v))

    def at(self, step):
        """Value after `step`."""
        lo, hi = 0, len(self.pts)
        while lo < hi:
            m = (lo + hi) // 2
            if self.pts[m][0] <= step:
                lo = m + 1
            else:
                hi = m
        return self.pts[lo - 1][2] if lo else None

    def before(self, step):
        return self.at(step - 1)


class Trace:
    def __init__(self, sim):
        self.sim = sim
        self.nodes = sim.nodes
        self.t0 = sim.spec.get("t0", 0)
        self.objlog = {k: [] for k in sim.objs}
        self.replog = {k: [] for k in sim.reporters}
        self.alog = {k: [] for k in sim.acts}
        self.lvl = {}
        self.res = {}
        self.geo = {}
        self.times = []  # (step, time) of every step at which something was seen
        self.probes = {k: [] for k in sim.acts}
        for ev in sim.events:
            k, step, now = ev[:3]
            if k == "log":
                kind, name, idx, e = ev[3:]
                {"o": self.objlog, "r": self.replog, "a": self.alog}[kind][name].append(
                    Ent(step, now, idx, e)
                )
            elif k == "lvl":
                obj, cid, _old, new = ev[3:]
                self.lvl.setdefault((obj, cid), Timeline()).add(step, now, new)
            elif k == "res":
                obj, users, queue, reqs, cap = ev[3:]
                self.res.setdefault(obj, Timeline()).add(step, now, (users, queue, cap))
            elif k == "geo":
                self.geo.setdefault(ev[3], Timeline()).add(step, now, ev[5])
            elif k == "probe":
                phase, act, tag, at = ev[3:7]
                self.probes[act].append(
                    dict(phase=phase, tag=tag, step=step + 0.5, now=now, args=ev[7:])
                )
        self.ids = {n: sim.acts[n].id for n in sim.acts}
        self.by_id = {v: k for k, v in self.ids.items()}
        self.kids = {
            n: [s["n"] for s in node.get("subs", [])] for n, node in self.nodes.items()
        }
        self.parent = sim.parent
        self.ex = {}
        self.malformed = []
        for n in self.nodes:
            try:
                self.ex[n] = segment(n, self.alog[n], {self.ids[c] for c in self.kids[n]})
            except Malformed as m:
                self.malformed.append(m)
                self.ex[n] = []
        self._attach_probes()
        self._link()

    # -- structure ------------------------------------------------------------------
    def _attach_probes(self):
        for n, node in self.nodes.items():
            ps = node.get("probes", [])
            if not ps:
                continue
            cnt = {}
            for p in self.probes[n]:
                key = (p["phase"], p["tag"])
                i = cnt.get(key, 0)
                cnt[key] = i + 1
                if i < len(self.ex[n]):
                    self.ex[n][i].probes.append(p)
            for x in self.ex[n]:
                have = {(p["phase"], p["tag"]) for p in x.probes}
                x.probes_done = all(
                    ("post_done" if p.get("post") else "post", p["tag"]) in have for p in ps
                )

    def _link(self):
        """Slots: for every execution of a composite, which execution of which child."""
        self.slots = {}  # child -> list of dict(T, Tstep, parent Ex, iteration, i)
        self.regs = {}  # activity -> list of (step, time) of registrations
        self.link_issues = []
        cnt = {n: 0 for n in self.nodes}

        def take(child, pex, it, i, T, Ts):
            k = cnt[child]
            cnt[child] += 1
            x = self.ex[child][k] if k < len(self.ex[child]) else None
            self.slots.setdefault(child, []).append(
                dict(T=T, Tstep=Ts, pex=pex, it=it, i=i, ex=x)
            )
            return x

        def walk(name):
            kids = self.kids[name]
            if kids:
                k = self.nodes[name]["k"]
                n = len(kids)
                for px in self.ex[name]:
                    if px.start is None:
                        continue
                    if k == "par":
                        for i, c in enumerate(kids):
                            take(c, px, 0, i, px.start.now, px.start.step)
                    else:
                        iters = max(1, -(-len(px.subs) // n))
                        T, Ts = px.start.now, px.start.step
                        alive = True
                        for it in range(iters):
                            for i, c in enumerate(kids):
                                x = take(c, px, it, i, T, Ts)
                                if x is None or not x.complete:
                                    alive = False
                                    break
                                T, Ts = x.end
                            if not alive:
                                break
                for c in kids:
                    walk(c)

        for t in self.nodes:
            if self.parent[t] is None and t in self.sim.registered:
                self.slots[t] = [
                    dict(
                        T=self.sim.registered[t][1], Tstep=self.sim.registered[t][0], pex=None, it=0, i=0,
                        ex=self.ex[t][0] if self.ex[t] else None,
                    )
                ]
                cnt[t] = 1
                walk(t)
        for n in self.nodes:
            if len(self.ex[n]) > cnt[n]:
                self.link_issues.append(
                    (n, f"{n} was executed {len(self.ex[n])} times, its parent accounts for {cnt[n]}")
                )
        # registrations
        for n in self.nodes:
            top = n
            while self.parent[top] is not None:
                top = self.parent[top]
            regs = [self.sim.registered[top]] if top in self.sim.registered else []
            p = self.parent[n]
            while p is not None:
                if self.nodes[p]["k"] in ("rep", "while"):
                    m = len(self.kids[p])
                    for px in self.ex[p]:
                        for j in range(m, len(px.subs), m):
                            regs.append((px.subs[j][1].step, px.subs[j][1].now))
                p = self.parent[p]
            self.regs[n] = sorted(regs)

    # -- observables -----------------------------------------------------------------
    def level(self, obj, cid, step):
        tl = self.lvl.get((obj, cid))
        return tl.at(step) if tl else 0

    def needs(self, name):
        n = self.nodes[name]
        if n["k"] == "move":
            return [n["mover"]]
        if n["k"] == "shift":
            return list(dict.fromkeys([n["dest"], n["proc"], n["orig"]]))
        return []

    # -- conditions ------------------------------------------------------------------
    def cond_holds(self, e, lvl, cap):
        st = e["st"]
        if st == "full":
            return lvl >= cap
        if st == "empty":
            return lvl <= 0
        x = e["lv"]
        return {"gt": lvl > x, "ge": lvl >= x, "lt": lvl < x, "le": lvl <= x}[st]

    def occurs(self, e, step, t):
        """First time >= t at which the expression, asked for at `step`, has occurred.

        None: not decidable from the observations (several changes at one instant)."""
        if e is None:
            return t
        if isinstance(e, list):
            return self._all([self.occurs(x, step, t) for x in e], t)
        if "and" in e:
            return self._all([self.occurs(x, step, t) for x in e["and"]], t)
        if "or" in e:
            v = [self.occurs(x, step, t) for x in e["or"]]
            known = [x for x in v if x is not None]
            if len(known) < len(v):
                if known and min(known) <= t:
                    return min(known)
                return None
            return min(v) if v else t
        if "t" in e:
            return max(e["t"], t)
        if "ev" in e:
            return max(e["ev"], t)
        if "a" in e:
            k = sum(1 for s, _ in self.regs[e["a"]] if s <= step) - 1
            xs = self.ex[e["a"]]
            if k >= len(xs) or not xs[k].complete:
                return INF
            return max(xs[k].end[0], t)
        # container
        cid = e.get("id", "default")
        cap = self.sim.caps.get((e["c"], cid.removesuffix("_reservations")), 0)
        tl = self.lvl.get((e["c"], cid))
        pts = tl.pts if tl else []
        now_true = self.cond_holds(e, self.level(e["c"], cid, step), cap)
        for s, tt, v in pts:
            # an earlier or later level at this very instant that says otherwise
            if tt == t and self.cond_holds(e, v, cap) != now_true and s < step:
                return None
        # the level before this instant, if it changed within it
        ch = [p for p in pts if p[1] == t and 0 < p[0] <= step]
        if ch:
            pre = tl.before(ch[0][0])
            if pre is not None and self.cond_holds(e, pre, cap) != now_true:
                return None
        if now_true:
            return t
        for s, tt, v in pts:
            if s > step and self.cond_holds(e, v, cap):
                return max(tt, t)
        return INF

    @staticmethod
    def _all(v, t):
        if any(x is None for x in v):
            known = [x for x in v if x is not None]
            if known and max(known) == INF:
                return INF
            return None
        return max(v) if v else t
