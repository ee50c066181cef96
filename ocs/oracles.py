"""Oracles over a Trace.  Each yields Issue(facet, what, where) for what it refutes,
and counts in `cnt` what it actually compared."""

import collections
import math

from .trace import INF, close, tol

Issue = collections.namedtuple("Issue", "facet what")


class Oracle:
    def __init__(self, tr):
        self.tr = tr
        self.sim = tr.sim
        self.cnt = collections.Counter()
        self.issues = []

    def bad(self, facet, what):
        self.issues.append(Issue(facet, what))

    def seen(self, facet, n=1):
        self.cnt[facet] += n


PARENT_FACET = {"seq": "seq", "par": "par", "rep": "rep", "while": "while"}


# ---------------------------------------------------------------------------- timing
def timing(o):
    """Everything about when executions start, stop and end."""
    tr, sim = o.tr, o.sim
    for m in tr.malformed:
        o.bad("malformed:" + tr.nodes[m.act]["k"], str(m))
    if tr.malformed:
        return
    for df, was in sim.records:
        o.seen("weather-record")
        if not df.equals(was) or list(df.index) != list(was.index):
            o.bad("weather", f"the weather record has become {df.shape} {list(df.columns)}, it was {was.shape} {list(was.columns)}")
    for n, what in tr.link_issues:
        p = tr.parent[n]
        o.bad("once" if p is None else PARENT_FACET[tr.nodes[p]["k"]], what)
    for n, node in tr.nodes.items():
        for k, sl in enumerate(tr.slots.get(n, [])):
            _one(o, n, node, k, sl)
        if node["k"] in ("seq", "par", "rep", "while"):
            for x in tr.ex[n]:
                _composite(o, n, node, x)


def _regstep(tr, n, k):
    r = tr.regs[n]
    return r[k] if k < len(r) else None


def _one(o, n, node, k, sl):
    tr, sim = o.tr, o.sim
    p = tr.parent[n]
    pf = "once" if p is None else PARENT_FACET[tr.nodes[p]["k"]]
    x = sl["ex"]
    T = sl["T"]
    reg = _regstep(tr, n, k)
    if reg is None:
        o.bad(pf, f"{n}: execution {k} without a registration")
        return
    se = node.get("se")
    occ = tr.occurs(se, *reg) if se is not None else reg[1]
    if occ is None:
        B = None
        o.seen("undecided")
    else:
        B = max(T, occ)
    facet = "start" if se is not None else pf
    if x is None:
        if B is None:
            return
        if sim.outcome == "done" and sim.spec.get("until") is None:
            if B == INF:
                o.seen("start")  # never occurs: never starts
            elif tr.needs(n):
                o.seen("unserved")
            else:
                o.bad(facet, f"{n}: execution {k} never happened although ready at {B}")
        return
    if B == INF:
        o.bad("start", f"{n}: execution {k} started although its start condition never occurred")
        return
    first = x.first
    # the start-condition wait
    if se is None:
        if x.w0 is not None:
            o.bad(pf, f"{n}: execution {k} became ready at {x.w0[0].t}, waited to "
                  f"{x.w0[1].now if x.w0[1] else None}, but was triggered at {T} without a condition")
            return
    elif B is not None:
        o.seen("start")
        if B > T + tol(T):
            if x.w0 is None or x.w0[1] is None:
                o.bad("start", f"{n}: execution {k} triggered at {T}, condition {se} at {occ}: "
                      f"proceeded at {first} without waiting")
                return
            if not close(x.w0[1].now, B):
                o.bad("start", f"{n}: execution {k} triggered at {T}, condition {se} occurred at "
                      f"{occ}, but waited until {x.w0[1].now}")
                return
            if not close(x.w0[0].t, T) or not close(x.w0[1].t, B):
                o.bad("wait", f"{n}: execution {k} waited from {T} to {B}, recorded as "
                      f"{x.w0[0].t} to {x.w0[1].t}")
        elif x.w0 is not None and B < T - tol(T) * 0 and not close(B, x.w0[1].now if x.w0[1] else B):
            o.bad("start", f"{n}: execution {k} waited to {x.w0[1].now}, condition {se} occurred at {occ}, "
                  f"triggered at {T}")
            return
    else:
        B = x.w0[1].now if x.w0 is not None and x.w0[1] is not None else T
    if B is None:
        return
    if x.w0 is not None and x.w0[1] is None:
        return
    if x.w0 is not None and x.w0[1] is not None and not x.w0[1].now >= x.w0[0].t - tol(T):
        o.bad("wait", f"{n}: wait stops before it starts")
    if first is None:
        if sim.outcome == "done" and sim.spec.get("until") is None and not tr.needs(n):
            o.bad(pf, f"{n}: execution {k} ready at {B} but never started")
        return
    if first[0] < B - tol(B):
        o.bad(facet, f"{n}: execution {k} began at {first[0]} before it was ready at {B} "
              f"(triggered {T}, condition {occ})")
        return
    if tr.needs(n):
        _idle(o, n, node, k, B, first)
        G = first[0]
    else:
        o.seen(pf)
        if not close(first[0], B):
            o.bad(facet, f"{n}: execution {k} was ready at {B} but began at {first[0]}")
            return
        G = B
    _plugins(o, n, node, k, x, G)
    # body
    if x.start is None or x.stop is None:
        if sim.outcome == "done" and sim.spec.get("until") is None:
            blocked = any(not y["ex"] or not y["ex"].complete
                          for c in tr.kids[n] for y in tr.slots.get(c, []) if y["pex"] is x)
            if not (node["k"] in ("seq", "par", "rep", "while") and blocked):
                o.bad("basic" if node["k"] == "basic" else pf, f"{n}: execution {k} started but never stopped")
        return
    if not close(x.start.t, x.start.now) or not close(x.stop.t, x.stop.now):
        o.bad("stamp", f"{n}: entries stamped {x.start.t}/{x.stop.t} written at {x.start.now}/{x.stop.now}")
    if x.stop.now < x.start.now:
        o.bad("stamp", f"{n}: stop before start")
    if node["k"] == "basic":
        o.seen("basic")
        if not close(x.stop.now, x.start.now + node["dur"]):
            o.bad("basic", f"{n}: execution {k} ran {x.start.now} to {x.stop.now}, duration is {node['dur']}")
    elif node["k"] == "move":
        _move(o, n, node, k, x)
    elif node["k"] == "shift":
        _shift(o, n, node, k, x)


def _plugins(o, n, node, k, x, G):
    """pre: probes (given priority), weather (2); post: probes, delay (3)."""
    probes = sorted(
        [(p["prio"], i, "probe", p) for i, p in enumerate(node.get("probes", []))]
        + ([(2, -1, "wx", None)] if "wx" in node else [])
        + ([(3, -2, "delay", None)] if "delay" in node else []),
        key=lambda v: (v[0], v[1]),
    )
    # mixin plugins register before the probes; at equal priority they come first
    t = G
    pw = list(x.pre)
    pr = {(p["phase"], p["tag"]): p for p in x.probes}
    counts = collections.Counter((p["phase"], p["tag"]) for p in x.probes)
    for key, c in counts.items():
        if c > 1:
            o.bad("plugin", f"{n}: execution {k}: plugin {key[1]} ran its {key[0]} phase {c} times")
            return
    laststep = -1
    for prio, i, kind, p in probes:
        if kind == "probe":
            r = pr.get(("pre", p["tag"]))
            if r is None:
                if x.start is not None:
                    o.bad("plugin", f"{n}: execution {k} started without pre-processing of plugin {p['tag']}")
                return
            o.seen("plugin")
            if not close(r["now"], t):
                o.bad("plugin", f"{n}: execution {k}: plugin {p['tag']} pre-processed at {r['now']}, due {t}")
                return
            order = o.sim.events.index  # noqa: F841 - order is by position below
            if p.get("pre"):
                d = pr.get(("pre_done", p["tag"]))
                if d is None:
                    if x.start is not None:
                        o.bad("plugin", f"{n}: execution {k} started during pre-processing of {p['tag']}")
                    return
                t = d["now"]
                if not close(t, r["now"] + p["pre"]):
                    o.bad("plugin", f"{n}: pre-processing of {p['tag']} lasted {t - r['now']}, not {p['pre']}")
                    return
        elif kind == "wx":
            due = weather_start(node["wx"], t)
            if due is None:
                if x.start is not None:
                    o.bad("weather", f"{n}: execution {k} started at {x.start.now} without any workable window")
                return
            o.seen("weather")
            w = pw.pop(0) if pw else None
            if w is not None and not due > t + tol(t):  # as good as the end of a window
                late = weather_start(node["wx"], t, tol(t))
                if late > t + tol(t):
                    o.seen("weather-end")
                    due = late
            elif w is None and due > t + tol(t) and weather_start(node["wx"], t, -tol(t)) <= t + tol(t):
                o.seen("weather-end")
                due = t
            if due > t + tol(t):
                o.seen("weather-wait")
                if w is None:
                    o.bad("weather", f"{n}: execution {k} ready at {t} did not wait for the window at {due}")
                    return
                if not close(w[0].now, t) or (w[1] is not None and not close(w[1].now, due)):
                    o.bad("weather", f"{n}: execution {k} ready at {t}, window at {due}, waited "
                          f"{w[0].now} to {w[1].now if w[1] else None}")
                    return
                if w[0].ref != "waiting on weather":
                    o.bad("weather", f"{n}: weather wait recorded as {w[0].ref}")
                if w[1] is None:
                    return
                t = w[1].now
            elif w is not None:
                if w[1] is None or w[1].now > t + tol(t):
                    o.bad("weather", f"{n}: execution {k} ready at {t} within a window waited to "
                          f"{w[1].now if w[1] else None}")
                    return
    if x.start is not None and not close(x.start.now, t):
        f = "weather" if "wx" in node else "plugin" if node.get("probes") else (
            "basic" if node["k"] == "basic" else "start-body")
        o.bad(f, f"{n}: execution {k} started at {x.start.now}, pre-processing was over at {t}")
        return
    if x.stop is None:
        return
    # order of simultaneous pre phases: by record order
    seq = [p["tag"] for p in x.probes if p["phase"] == "pre"]
    want = [p["tag"] for _, _, kind, p in probes if kind == "probe"]
    if seq != want:
        o.bad("plugin", f"{n}: execution {k}: pre-processing order {seq}, priorities demand {want}")
    for tag in want:
        if pr[("pre", tag)]["step"] > x.start.step:
            o.bad("plugin", f"{n}: pre-processing of {tag} after the start")
    t = x.stop.now
    for prio, i, kind, p in probes:
        if kind == "probe":
            r = pr.get(("post", p["tag"]))
            if r is None:
                if o.sim.outcome == "done" and o.sim.spec.get("until") is None:
                    o.bad("plugin", f"{n}: execution {k}: no post-processing of plugin {p['tag']}")
                return
            if not close(r["now"], t) or math.ceil(r["step"]) < x.stop.step:
                o.bad("plugin", f"{n}: execution {k}: plugin {p['tag']} post-processed at {r['now']}, due {t}")
                return
            a = r["args"]
            if len(a) < 2 or not close(a[0], G) or not close(a[1], x.start.now):
                o.bad("plugin", f"{n}: execution {k}: plugin {p['tag']} was told pre-processing began at "
                      f"{a[0] if a else None} and the activity at {a[1] if len(a) > 1 else None}; true: {G}, {x.start.now}")
            if p.get("post"):
                d = pr.get(("post_done", p["tag"]))
                if d is None:
                    return
                t = d["now"]
        elif kind == "delay":
            d = x.post[0] if x.post else None
            want_d = (t - x.start.now) * node["delay"] / 100
            o.seen("delay")
            if d is None:
                if o.sim.outcome == "done" and o.sim.spec.get("until") is None:
                    o.bad("delay", f"{n}: execution {k} has no recorded delay")
                return
            if d[0].ref != "delay" or not close(d[0].now, t):
                o.bad("delay", f"{n}: execution {k}: delay {d[0].ref} recorded at {d[0].now}, due at {t}")
                return
            if d[1] is not None:
                if not close(d[1].now - d[0].now, want_d):
                    o.bad("delay", f"{n}: execution {k} ran {x.start.now} to {x.stop.now} with "
                          f"{node['delay']}%: delayed {d[1].now - d[0].now}, not {want_d}")
                t = d[1].now
    if "delay" not in node and x.post:
        o.bad("delay", f"{n}: execution {k} was delayed without a delay percentage")
    seq = [p["tag"] for p in x.probes if p["phase"] == "post"]
    if seq != want:
        o.bad("plugin", f"{n}: execution {k}: post-processing order {seq}, priorities demand {want}")


def _composite(o, n, node, x):
    tr = o.tr
    if x.start is None:
        return
    kids = tr.kids[n]
    f = PARENT_FACET[node["k"]]
    mine = [(c, y) for c in kids for y in tr.slots.get(c, []) if y["pex"] is x]
    mine.sort(key=lambda v: (v[1]["it"], v[1]["i"]))
    names = [tr.by_id.get(s[0]) for s in x.subs]
    N = len(kids)
    done = x.stop is not None
    if node["k"] in ("seq", "par"):
        iters = 1
    else:
        iters = max(1, -(-len(x.subs) // N))
    want = kids * iters
    if done and names != want:
        o.bad(f, f"{n}: execution {x.idx} recorded sub-activities {names}, expected {want}")
        return
    if not done and names != want[: len(names)]:
        o.bad(f, f"{n}: execution {x.idx} recorded sub-activities {names}, expected a prefix of {want}")
        return
    ends = []
    for (c, y), s in zip(mine, x.subs):
        o.seen(f + "-sub")
        cx = y["ex"]
        T = y["T"] if node["k"] != "par" else x.start.now
        if not close(s[1].now, T) or not close(s[1].t, s[1].now):
            o.bad(f, f"{n}: start of sub-activity {c} recorded at {s[1].t}, ready at {T}")
        if s[2] is not None:
            if not close(s[2].t, s[2].now):
                o.bad("stamp", f"{n}: stop of sub-activity {c} stamped {s[2].t}, written at {s[2].now}")
            if cx is None or not cx.complete:
                o.bad(f, f"{n}: stop of sub-activity {c} recorded at {s[2].now} before it ended")
                continue
            ends.append(cx.end[0])
            if not close(s[2].now, cx.end[0]):
                o.bad(f, f"{n}: stop of sub-activity {c} recorded at {s[2].now}, it ended at {cx.end[0]}")
    if done:
        for c, y in mine:
            if y["ex"] is None or not y["ex"].complete:
                o.bad(f, f"{n}: execution {x.idx} stopped at {x.stop.now} before sub-activity {c} ended")
                return
        if ends and not close(x.stop.now, max(ends)):
            o.bad(f, f"{n}: execution {x.idx} stopped at {x.stop.now}, its last sub-activity ended at {max(ends)}")
        if len(mine) != len(want):
            o.bad(f, f"{n}: execution {x.idx}: {len(mine)} executions of sub-activities, expected {len(want)}")
    elif o.sim.outcome == "done" and o.sim.spec.get("until") is None:
        if all(y["ex"] is not None and y["ex"].complete for _, y in mine) and len(mine) == len(want):
            o.bad(f, f"{n}: execution {x.idx} never stopped although all its sub-activities ended")
    if node["k"] == "rep":
        o.seen("rep-count")
        if done and iters != max(1, node["reps"]):
            o.bad("rep", f"{n}: execution {x.idx} ran {iters} iterations, {node['reps']} were asked for")
        elif iters > max(1, node["reps"]):
            o.bad("rep", f"{n}: execution {x.idx} ran {iters} iterations, {node['reps']} were asked for")
    if node["k"] == "while":
        occ = tr.occurs(node["cond"], x.start.step, x.start.now)
        if occ is None:
            o.seen("undecided")
            return
        by_it = {}
        for c, y in mine:
            if y["i"] == N - 1 and y["ex"] is not None and y["ex"].complete:
                j = (y["it"] + 1) * N - 1
                if j < len(x.subs) and x.subs[j][2] is not None:
                    by_it[y["it"]] = (y["ex"].end[0], x.subs[j][2].step)
        for it in sorted(by_it):
            e, ds = by_it[it]
            last = it == iters - 1
            met = occ <= e
            if close(occ, e):
                met = _tie(o, n, node["cond"], x, ds)
                if met is None:
                    o.seen("while-tie")
                    continue
            o.seen("while-iter")
            if met:
                if not last or (not done and o.sim.outcome == "done" and o.sim.spec.get("until") is None):
                    o.bad("while", f"{n}: execution {x.idx}: condition {node['cond']} occurred at {occ}, "
                          f"loop did not stop at the end of iteration {it} at {e}")
                    return
            elif last and done:
                o.bad("while", f"{n}: execution {x.idx} stopped at {e} after iteration {it}; condition "
                      f"{node['cond']} occurs at {occ}")
                return


def _tie(o, n, cond, x, ds):
    """Condition that becomes true at the very time an iteration ends (in step ds).

    Decided for plain levels (the level changes strictly before the transfer that
    changes it ends) and for what only the next registration brings about; not for
    times and activities, whose order within the instant is not specified."""
    tr = o.tr
    resv = [False]

    def first(c):
        if isinstance(c, list) or "and" in c:
            v = [first(y) for y in (c if isinstance(c, list) else c["and"])]
            return None if None in v else max(v)
        if "or" in c:
            v = [first(y) for y in c["or"]]
            return None if None in v else min(v)
        if "c" not in c:
            return None
        cid = c.get("id", "default")
        if cid.endswith("_reservations"):
            resv[0] = True
        cap = o.sim.caps.get((c["c"], cid.removesuffix("_reservations")), 0)
        if tr.cond_holds(c, tr.level(c["c"], cid, x.start.step), cap):
            return x.start.step
        for s, t, v in tr.lvl[(c["c"], cid)].pts:
            if s > x.start.step and tr.cond_holds(c, v, cap):
                hit.add((c["c"], cid))
                return s
        return INF

    hit = set()
    s = first(cond)
    if s is None:
        return None
    if s >= ds:
        return False if resv[0] else None
    if resv[0]:
        return None
    # by a transfer of this iteration, whose end the end of the iteration awaits; what others
    # change at the same instant may come before or after the decision
    def inside(m):
        return [m] + [d for c in tr.kids.get(m, []) for d in inside(c)]

    for m in inside(n):
        q = o.sim.nodes[m]
        if q["k"] == "shift" and any(
                y.start is not None and y.start.step <= s and (y.stop is None or y.stop.step >= s) for y in tr.ex[m]):
            if any((q[w], q.get("cid", "default")) in hit for w in ("orig", "dest")):
                return True
    return None if s > x.start.step else True


# ------------------------------------------------------------------- resources / idle
def _idle(o, n, node, k, B, first):
    """Between ready and first sign of life at least one needed object must be full."""
    tr = o.tr
    t1, s1 = first
    o.seen("ready")
    if t1 <= B + tol(B):
        return
    o.seen("waited")
    g = o.sim.group_of(n)
    need = tr.needs(n)
    tls = [(r, tr.res[r]) for r in need if r in tr.res]
    steps = sorted({p[0] for _, tl in tls for p in tl.pts if p[0] < s1} | {0})
    # states that lasted a positive time within (B, t1)
    allp = sorted({(p[0], p[1]) for _, tl in tls for p in tl.pts})
    for i, s in enumerate(steps):
        ts_ = next((p[1] for p in reversed(allp) if p[0] <= s), tr.t0)
        nxt = [p for p in allp if p[0] > s]
        te = nxt[0][1] if nxt else t1
        lo, hi = max(ts_, B), min(te, t1)
        if hi <= lo + tol(lo):
            continue
        blocked = []
        for r, tl in tls:
            users, queue, cap = tl.at(s)
            if g not in users and len(users) >= cap:
                blocked.append(r)
        if not blocked:
            if node["k"] == "shift" and _content_short(o, node, s):
                o.seen("waited-content")
                continue
            o.bad("idle", f"{n}: execution {k} was ready at {B} and waited until {t1}, but from {lo} to {hi} "
                  f"every object it needs ({need}) had a free resource")
            return


def _content_short(o, node, step):
    cid = node.get("cid", "default")
    lv = o.tr.level(node["orig"], cid, step)
    free = o.sim.caps.get((node["dest"], cid), 0) - o.tr.level(node["dest"], cid, step)
    return lv <= 0 or free <= 0


def resources(o):
    """Exclusivity, holding, order of grants, release and keep."""
    tr, sim = o.tr, o.sim
    # 1. never more users than resources; first come first served
    for r, tl in tr.res.items():
        prev = ((), (), None)
        pts = tl.pts
        for i, (s, t, (users, queue, cap)) in enumerate(pts):
            o.seen("res-state")
            lasts = (pts[i + 1][1] if i + 1 < len(pts) else sim.env.now) > t
            if queue and len(users) < cap and lasts:
                o.bad("excl", f"{r}: {queue} queue from {t} on although only {len(users)} of {cap} are used")
            if len(users) > cap:
                o.bad("excl", f"{r}: {len(users)} users of {cap} resources at {t}")
                return
            # grants follow the queue
            if prev[1]:
                o.seen("res-contended")
                left = list(prev[1])
                granted = [q for q in left if q not in queue and q in users]
                stay = [q for q in left if q in queue]
                if None not in left and None not in queue and list(queue[: len(stay)]) != stay:
                    o.bad("fifo", f"{r}: {left} queued, at {t} the queue is {list(queue)}")
                    return
                for q in granted:
                    if any(z in queue for z in left[: left.index(q)]):
                        o.bad("fifo", f"{r}: {q} was served at {t} before {left[:left.index(q)]} which asked earlier")
            if len(users) > 1 and len(set(users)) < len(users):
                o.bad("excl", f"{r}: one activity holds several resources at {t}: {users}")
            prev = (users, queue, cap)
    if tr.malformed:
        return
    # 2. an executing activity holds what it needs, from first sign to its end
    for n, node in tr.nodes.items():
        need = tr.needs(n)
        if not need:
            continue
        g = sim.group_of(n)
        keep = set(node.get("keep", []))
        for x in tr.ex[n]:
            f = x.first
            if f is None:
                continue
            s0 = f[1]
            if x.complete:
                te, s1 = x.end
            else:
                s1, te = sim.env.nsteps + 1, None
            for r in need:
                tl = tr.res.get(r)
                o.seen("held")
                pts = [p for p in tl.pts if s0 < p[0] < s1] if tl else []
                st = tl.at(s0) if tl else None
                for p in ([(s0, None, st)] if s0 < s1 else []) + pts:
                    if p[2] is None or g not in p[2][0]:
                        o.bad("held", f"{n}: executes from {f[0]} to {te} without holding {r} "
                              f"(users {p[2][0] if p[2] else None} at step {p[0]})")
                        return
    # 3. release / keep
    for g in {sim.group_of(n) for n in tr.nodes if tr.needs(n)}:
        members = [n for n in tr.nodes if tr.needs(n) and sim.group_of(n) == g]
        exs = sorted(
            ((x.first[1], x, n) for n in members for x in tr.ex[n] if x.first is not None),
            key=lambda v: v[0],
        )
        busy = [(s, x.end[1] if x.complete else math.inf) for s, x, n in exs]
        for i, (s, x, n) in enumerate(exs):
            if not x.complete:
                continue
            te, se = x.end
            if any(a <= se < b for j, (a, b) in enumerate(busy) if j != i):
                continue  # a concurrent member: the group is misused, nothing to say
            keep = set(tr.nodes[n].get("keep", []))
            # from when on another member of the group may ask for resources itself
            ready = math.inf
            for m in members:
                for sl in tr.slots.get(m, []):
                    y = sl["ex"]
                    if y is x:
                        continue
                    if y is not None and y.complete and y.end[1] <= se and y.end[1] <= s:
                        continue
                    ready = min(ready, max(sl["Tstep"], se))
            for r in tr.needs(n):
                tl = tr.res[r]
                if r in keep:
                    o.seen("keep")
                    nxt = next(((a, y, m) for a, y, m in exs[i + 1:] if r in tr.needs(m)), None)
                    upto = nxt[0] if nxt else math.inf
                    span = [p for p in tl.pts if se < p[0] <= upto]
                    for p in [(se, te, tl.at(se))] + span:
                        if g not in p[2][0]:
                            if nxt and p[0] >= _ready_step(tr, nxt[2], nxt[1]) and _renegotiated(
                                o, nxt[2], _ready_step(tr, nxt[2], nxt[1]), upto
                            ):
                                o.seen("keep-renegotiated")
                                break
                            o.bad("keep", f"{n}: kept {r} at its end at {te} but at {p[1]} it is held by {p[2][0]}")
                            return
                elif ready > se:
                    o.seen("release")
                    # free in the step of the end, or later at the same time
                    pts = [(se, te, tl.at(se))] + [p for p in tl.pts if p[0] > se and p[1] <= te + tol(te)]
                    if not any(g not in p[2][0] for p in pts):
                        o.bad("release", f"{n}: ended at {te} but {g} still holds {r}")
                        return
                else:
                    o.seen("release-handover")
    # 4. at the end of a completed simulation nothing is left, unless kept last
    if sim.outcome == "done" and sim.spec.get("until") is None:
        for r, tl in tr.res.items():
            users, queue, cap = tl.pts[-1][2]
            for u in users:
                o.seen("final-user")
                if u is None:
                    o.bad("release", f"{r}: held at the end by a request nobody owns")
                    continue
                mem = [n for n in tr.nodes if sim.group_of(n) == u]
                if not any(r in tr.nodes[n].get("keep", []) for n in mem) and all(
                    sl["ex"] is not None and sl["ex"].complete for n in mem for sl in tr.slots.get(n, [])
                ):
                    o.bad("release", f"{r}: still held by {u} at the end")
            o.seen("final")


def _renegotiated(o, n, s0, s1):
    """Content was taken from the origin while the transfer was asking for resources."""
    node = o.tr.nodes[n]
    if node["k"] != "shift":
        return False
    tl = o.tr.lvl.get((node["orig"], node.get("cid", "default")))
    return any(s0 <= p[0] < s1 for p in tl.pts)


def _ready_step(tr, n, x):
    for sl in tr.slots.get(n, []):
        if sl["ex"] is x:
            return sl["Tstep"]
    return 0


# ------------------------------------------------------------------------ move / shift
def speed_of(o, spec, lvls):
    if spec["kind"] == "fvessel":
        return spec["v"][1]
    v = spec["v"]
    if v[0] == "const":
        return v[1]
    fill = lvls[0] / lvls[1]
    return fill * (v[2] - v[1]) + v[1]


def obj_spec(o, name):
    return next(x for x in o.sim.spec["objs"] if x["n"] == name)


def contents(o, name, step, before=False):
    """(sum of levels, sum of capacities) of an object's containers at a step."""
    ids = o.sim._cids[name]
    lv = 0
    for i in ids:
        tl = o.tr.lvl.get((name, i))
        v = (tl.before(step) if before else tl.at(step)) if tl else 0
        lv += v or 0
    return lv, sum(o.sim.caps[(name, i)] for i in ids)


def _geod():
    from .boot import pyproj
    global _G
    try:
        return _G
    except NameError:
        _G = pyproj.Geod(ellps="WGS84")
        return _G


def dist(a, b):
    return _geod().inv(a[0], a[1], b[0], b[1])[2]


def _move(o, n, node, k, x):
    tr = o.tr
    m, d = node["mover"], node["dest"]
    src = tr.geo[m].before(x.start.step) if x.start.step > 0 else tr.geo[m].at(0)
    dst = tr.geo[d].at(x.start.step)
    got = x.stop.now - x.start.now
    o.seen("move")
    if "dur" in node:
        want = node["dur"]
    else:
        sp = obj_spec(o, m)
        v = speed_of(o, sp, contents(o, m, x.start.step)) * _engine(o, m, x)
        want = dist(src, dst) / v
        o.seen("move-speed")
        if src != dst:
            o.seen("move-distance")
    if abs(got - want) > tol(x.stop.now) + 1e-9 * want:
        o.bad("move", f"{n}: execution {k}: {m} sailed {src} to {dst} in {got}, expected {want}")


def _engine(o, m, x):
    """Engine order in force: the last one given to the mover, up to this move."""
    eo, at = obj_spec(o, m).get("eo", 1), -1
    for n, node in o.tr.nodes.items():
        if node["k"] == "move" and node["mover"] == m:
            for y in o.tr.ex[n]:
                if y.start is not None and at < y.start.step <= x.start.step and node.get("eo", 1) is not None:
                    eo, at = node.get("eo", 1), y.start.step
    return eo


def positions(o):
    """A mover changes position only at the stop of one of its moves, to the destination."""
    tr = o.tr
    if tr.malformed:
        return
    arrivals = {}
    for n, node in tr.nodes.items():
        if node["k"] != "move":
            continue
        for k, x in enumerate(tr.ex[n]):
            if x.stop is None:
                continue
            m, d = node["mover"], node["dest"]
            o.seen("arrive")
            at = tr.geo[m].at(x.stop.step)
            want = tr.geo[d].at(x.stop.step)
            if at != want:
                o.bad("position", f"{n}: execution {k}: {m} is at {at} after the move to {d} at {want}")
            arrivals.setdefault(m, set()).add((x.stop.now, want))
            s0, s1 = x.start.step, x.stop.step
            for p in tr.geo[m].pts:
                if s0 <= p[0] < s1 and not close(p[1], x.stop.now) and p[0] > 0:
                    o.bad("position", f"{n}: {m} changed position at {p[1]} while under way from {x.start.now} to {x.stop.now}")
    for m, tl in tr.geo.items():
        for s, t, g in tl.pts[1:]:
            o.seen("position-change")
            if not any(close(t, a) and g == w for a, w in arrivals.get(m, ())):
                o.bad("position", f"{m} jumped to {g} at {t} without a move that ends there")


def _shift_changes(o, n, node, x):
    """Level changes of the named container at origin/destination by this transfer."""
    tr = o.tr
    cid = node.get("cid", "default")
    key_o, key_d = (node["orig"], cid), (node["dest"], cid)

    def delta(key, step):
        tl = tr.lvl.get(key)
        if tl is None:
            return 0.0
        a, b = tl.before(step), tl.at(step)
        return (b or 0) - (a or 0)

    return delta, key_o, key_d


def shift_flows(o):
    """(name, k, execution, taken at start, given at the stop time, step of giving).

    Taken: what left the origin in the step of the start.  Given: a rise of the
    destination by the same amount, at the time of the stop, not used by another
    transfer."""
    tr = o.tr
    if getattr(o, "_flows", None) is not None:
        return o._flows
    todo = []
    for n, node in tr.nodes.items():
        if node["k"] != "shift":
            continue
        cid = node.get("cid", "default")
        for k, x in enumerate(tr.ex[n]):
            if x.start is None:
                continue
            tl = tr.lvl.get((node["orig"], cid))
            a = (tl.before(x.start.step) or 0) - (tl.at(x.start.step) or 0) if tl else 0.0
            todo.append([n, k, x, a, None, None])
    used = set()
    for f in sorted(todo, key=lambda f: f[2].stop.step if f[2].stop else math.inf):
        n, k, x, a = f[:4]
        node = tr.nodes[n]
        key = (node["dest"], node.get("cid", "default"))
        tld = tr.lvl.get(key)
        if tld is None:
            continue
        end = x.stop.step if x.stop else math.inf
        prev = None
        for s, t, v in tld.pts:
            if s > end:
                break
            if (prev is not None and s > x.start.step and (key, s) not in used and close(v - prev, a)
                    and v > prev and (x.stop is None or close(t, x.stop.now))):
                f[4], f[5] = v - prev, s
                used.add((key, s))
                break
            prev = v
    o._flows = [tuple(f) for f in todo]
    return o._flows


def _shift(o, n, node, k, x):
    tr, sim = o.tr, o.sim
    cid = node.get("cid", "default")
    so, sd = obj_spec(o, node["orig"]), obj_spec(o, node["dest"])
    tlo, tld = tr.lvl[(node["orig"], cid)], tr.lvl[(node["dest"], cid)]
    before = tlo.before(x.start.step)
    amt = before - tlo.at(x.start.step)
    o.seen("shift")
    req = node.get("amount")
    cap = sim.caps.get((node["dest"], cid), 0)
    # smallest of request, content and space, as of some moment between ready and start
    sl = next((y for y in tr.slots.get(n, []) if y["ex"] is x), None)
    s0 = sl["Tstep"] if sl else 0
    cands = set()
    # it looks at the content again when it obtains its processor and its origin: moments at which it found
    # less than it meant to take
    g, looks = sim.group_of(n), []
    for r in {node["proc"], node["orig"]}:
        had = None
        for p in tr.res[r].pts if r in tr.res else []:
            has = g in p[2][0]
            if has and had is False and s0 < p[0] < x.start.step and p[1] < x.start.now:
                top = max([tlo.at(p[0])] + [q[2] for q in tlo.pts if q[0] > p[0] and q[1] == p[1]])
                looks.append((p[0], top))
            had = has
    for s in sorted({s0, x.start.step - 1} | {p[0] for tl in (tlo, tld) for p in tl.pts if s0 <= p[0] < x.start.step}):
        if s < 0:
            continue
        lo, ld = tlo.at(s), tld.at(s)
        c = min(lo, cap - ld)
        if req is not None:
            c = min(c, req)
        if any(q > s and top < c - 1e-9 * max(1, abs(c)) for q, top in looks):
            o.seen("amount looked at again")
            continue
        cands.add(c)
    if len(cands) > 1:
        o.seen("shift-contended")
    if not any(abs(amt - c) <= 1e-9 * max(1, abs(c)) for c in cands):
        o.bad("amount", f"{n}: execution {k} moved {amt}; requested {req}, content {before}, "
              f"space {cap - tld.before(x.start.step)}")
    elif amt <= 0:
        o.bad("amount", f"{n}: execution {k} moved {amt}")
    if amt <= 0:
        o.bad("refused", f"{n}: execution {k} ran without content or space (moved {amt}) instead of being refused")
    # in place
    ps = [tr.geo[r].at(x.start.step) for r in (node["proc"], node["orig"], node["dest"])]
    if dist(ps[0], ps[1]) >= 100 or dist(ps[2], ps[1]) >= 100:
        o.bad("place", f"{n}: execution {k} between {ps}")
    # duration
    got = x.stop.now - x.start.now
    sp = obj_spec(o, node["proc"])
    if node.get("dur") is not None:
        want = node["dur"]
    elif node.get("phase") in ("loading", "unloading"):
        ld = node["phase"] == "loading"
        r = sp.get("lr" if ld else "ur", 1)
        man = sp.get("lm" if ld else "um", 0) * 60
        if isinstance(r, (int, float)):
            want = amt / r + man
        else:
            a, b = r[1], r[2]
            if ld:
                x0 = tld.before(x.start.step)
                x1 = x0 + amt
            else:
                x0 = before
                x1 = before - amt
            want = a * abs(x1 - x0) + b * abs(x1 * x1 - x0 * x0) / 2
            want += man
            o.seen("rate-function")
        o.seen("rate")
    else:
        return
    o.seen("processing")
    if abs(got - want) > tol(x.stop.now) + 1e-9 * abs(want):
        o.bad("processing", f"{n}: execution {k} moved {amt} in {got}, expected {want}")


# ------------------------------------------------------------------------------ levels
def levels(o):
    """Conservation, attribution of every change, bounds, reservations."""
    tr, sim = o.tr, o.sim
    if tr.malformed:
        return
    flows = shift_flows(o)
    sched = {}  # (obj, cid) -> {step: [expected deltas]}
    explained = {}
    for n, k, x, a, give, gs in flows:
        node = tr.nodes[n]
        cid = node.get("cid", "default")
        explained.setdefault((node["orig"], cid), {}).setdefault(x.start.step, []).append((n, k, -a))
        o.seen("taken")
        if x.stop is not None:
            o.seen("given")
            if give is None:
                tld = tr.lvl.get((node["dest"], cid))
                o.bad("conserve", f"{n}: execution {k} took {a} of {cid} from {node['orig']} at {x.start.now}; "
                      f"{node['dest']} did not receive it at {x.stop.now} "
                      f"(levels {[p for p in tld.pts if p[1] >= x.start.now][:4] if tld else None})")
            else:
                explained.setdefault((node["dest"], cid), {}).setdefault(gs, []).append((n, k, give))
        elif give is not None:
            explained.setdefault((node["dest"], cid), {}).setdefault(gs, []).append((n, k, give))
    for key, tl in tr.lvl.items():
        if key[1].endswith("_reservations"):
            continue
        prev = tl.pts[0][2]
        for s, t, v in tl.pts[1:]:
            o.seen("level-change")
            why = explained.get(key, {}).get(s, [])
            if not any(close(v - prev, d) for _, _, d in why) and not close(v - prev, sum(d for _, _, d in why)):
                o.bad("conserve", f"{key[0]}/{key[1]} changed {prev} to {v} at {t}; transfers there: {why}")
            prev = v


def bounds(o):
    tr, sim = o.tr, o.sim
    for (obj, cid), tl in tr.lvl.items():
        if cid.endswith("_reservations"):
            continue
        cap = sim.caps.get((obj, cid), 0)
        slack = 1e-9 * max(1.0, cap)
        for s, t, v in tl.pts:
            o.seen("bound")
            if v is None or v < -slack or v > cap + slack:
                o.bad("bounds", (obj, cid, s, t, v, cap))
                break


def overlap_class(o, where):
    """Mechanism of an exceeded bound: several transfers at once into (or, with time
    between the last look and the start, out of) an object with several resources."""
    obj, cid, s, t, v, cap = where
    sp = obj_spec(o, obj)
    if sp.get("nr", 1) < 2 or o.tr.malformed:
        return None

    def ready(n, x):
        return next((sl["Tstep"] for sl in o.tr.slots.get(n, []) if sl["ex"] is x), 0)

    mine = []
    for n, k, x, a, give, gs in shift_flows(o):
        node = o.tr.nodes[n]
        if node.get("cid", "default") != cid:
            continue
        if v > cap and node["dest"] == obj:
            mine.append((ready(n, x), gs if give is not None else math.inf, a))
        if v < 0 and node["orig"] == obj:
            mine.append((ready(n, x), x.start.step, a))
    cur = [m for m in mine if m[1] == s]
    if not cur:
        return None
    s0, s1, a = cur[0]
    # what the others put (took) between the last look of this transfer and its own
    other = sum(m[2] for m in mine if m is not cur[0] and s0 <= m[1] < s1)
    over = (v - cap) if v > cap else -v
    if other > 0 and over <= other + 1e-9 * max(1, cap):
        return "multi-resource-overflow" if v > cap else "multi-resource-underflow"
    return None


def totals(o):
    """Sum per content kind + in transit is constant, step by step (independent of logs'
    attribution: in transit is what left an origin and has not arrived)."""
    tr = o.tr
    flows = shift_flows(o)
    ev = {}
    for key, tl in tr.lvl.items():
        if key[1].endswith("_reservations"):
            continue
        prev = None
        for s, t, v in tl.pts:
            ev.setdefault(key[1], []).append((s, 0 if prev is None else v - prev, t))
            prev = v
    for cid, lst in ev.items():
        trans = []
        for n, k, x, a, give, gs in flows:
            if tr.nodes[n].get("cid", "default") != cid:
                continue
            trans.append((x.start.step, a, x.start.now))
            if give is not None:
                trans.append((gs, -give, 0))
            elif x.stop is not None:
                trans.append((x.stop.step, -a, 0))
        bal = 0.0
        scale = max([abs(a) for _, a, _ in lst + trans] + [abs(v) for k, tl in tr.lvl.items() if k[1] == cid for _, _, v in tl.pts])
        for n, k, x, a, give, gs in flows:
            if tr.nodes[n].get("cid", "default") == cid and give is not None and abs(give - a) > 1e-11 * scale:
                o.bad("conserve", f"{n}: execution {k} took {a!r} of {cid} and gave {give!r}")
                return
        steps = {}
        for s, d, t in lst + trans:
            steps[s] = steps.get(s, 0.0) + d
        for s in sorted(steps):
            bal += steps[s]
            o.seen("balance")
            if abs(bal) > 1e-11 * scale:
                o.bad("conserve", f"content {cid}: total incl. in transit off by {bal} after step {s}")
                return


def reservations(o):
    tr, sim = o.tr, o.sim
    if tr.malformed:
        return
    flows = shift_flows(o)
    delta = {}  # (obj,cid) -> list of (step, change of reservation - level)

    def planned(node):
        if node.get("amount"):
            return node["amount"]
        cid = node.get("cid", "default")
        return min(sim.caps.get((node["orig"], cid), 0),
                   sim.caps.get((node["dest"], cid), 0))

    for n, node in tr.nodes.items():
        if node["k"] != "shift":
            continue
        cid = node.get("cid", "default")
        r = planned(node)
        for s, t in tr.regs[n]:
            delta.setdefault((node["dest"], cid), []).append((s, r, t))
            delta.setdefault((node["orig"], cid), []).append((s, -r, t))
    for n, k, x, a, give, gs in flows:
        node = tr.nodes[n]
        cid = node.get("cid", "default")
        r = planned(node)
        delta.setdefault((node["orig"], cid), []).append((x.start.step, r, x.start.now))
        if give is not None:
            delta.setdefault((node["dest"], cid), []).append((gs, -r, x.stop.now if x.stop else sim.env.now))
    for key, tl in tr.lvl.items():
        if key[1].endswith("_reservations"):
            continue
        rt = tr.lvl.get((key[0], key[1] + "_reservations"))
        if rt is None:
            o.bad("reserve", f"{key} has no reserved level")
            continue
        dl = sorted(delta.get(key, []), key=lambda v: v[0])
        # the correction follows the level change within the instant: compare at the
        # last step of every instant
        pts = sorted({(p[0], p[1]) for p in tl.pts + rt.pts} | {(d[0], d[2]) for d in dl})
        bytime = {}
        for s, t in pts:
            bytime[t] = max(bytime.get(t, 0), s)
        last = sim.env.now
        scale = 1.0 + sum(abs(d[1]) for d in dl)
        for t, s in sorted(bytime.items()):
            if t == last and sim.outcome != "done":
                continue
            o.seen("reservation")
            want = (tl.at(s) or 0) + sum(d[1] for d in dl if d[0] <= s)
            got = rt.at(s)
            if abs(got - want) > 1e-9 * scale:
                o.bad("reserve", f"{key[0]}/{key[1]}: reserved level {got} at {t}, level {tl.at(s)} and planned "
                      f"transfers give {want}")
                return
        if sim.outcome == "done" and not any(
            sl["ex"] is None or not sl["ex"].complete
            for n, nd in tr.nodes.items() if nd["k"] == "shift" for sl in tr.slots.get(n, [])
        ) and all(len(tr.regs[n]) == len(tr.ex[n]) for n, nd in tr.nodes.items() if nd["k"] == "shift"):
            o.seen("reservation-final")
            if abs(rt.pts[-1][2] - tl.pts[-1][2]) > 1e-9 * scale:
                o.bad("reserve", f"{key[0]}/{key[1]}: all transfers are done, level {tl.pts[-1][2]}, "
                      f"reserved {rt.pts[-1][2]}")


# ------------------------------------------------------------------------------ logs
def activity_logs(o):
    tr, sim = o.tr, o.sim
    for m in tr.malformed:
        o.bad("log", str(m))
    for n, ents in tr.alog.items():
        prev = -math.inf
        for en in ents:
            o.seen("entry")
            if en.e["ActivityID"] != tr.ids[n]:
                o.bad("log", f"{n}: entry {en.idx} carries id {en.e['ActivityID']}")
            if en.t < prev - 2e-6:
                o.bad("log", f"{n}: entry {en.idx} {en.state} at {en.t} after an entry at {prev}")
            prev = max(prev, en.t)
            if not en.state.startswith("WAIT") or en.typ is not None:
                if not close(en.t, en.now):
                    o.bad("log", f"{n}: entry {en.idx} {en.state} {en.ref} states {en.t}, written at {en.now}")
            elif en.state == "WAIT_STOP" and not close(en.t, en.now):
                o.bad("log", f"{n}: wait stop states {en.t}, written at {en.now}")
    if sim.outcome == "done" and sim.spec.get("until") is None:
        for n, xs in tr.ex.items():
            for x in xs:
                if x.start is not None and x.stop is None:
                    kids_open = tr.kids[n] and any(
                        sl["ex"] is None or not sl["ex"].complete
                        for c in tr.kids[n] for sl in tr.slots.get(c, []))
                    if not kids_open:
                        o.bad("log", f"{n}: execution {x.idx} has a start but no stop")
                o.seen("execution")
    # sub entries
    if not tr.malformed:
        for n, node in tr.nodes.items():
            if tr.kids[n]:
                for x in tr.ex[n]:
                    if x.stop is not None:
                        cnt = collections.Counter(tr.by_id.get(s[0]) for s in x.subs)
                        real = collections.Counter(
                            c for c in tr.kids[n] for sl in tr.slots.get(c, [])
                            if sl["pex"] is x and sl["ex"] is not None)
                        o.seen("sub-pairs", sum(cnt.values()))
                        if cnt != real:
                            o.bad("log", f"{n}: execution {x.idx} records {dict(cnt)}, executed {dict(real)}")
                    for s in x.subs:
                        if s[1].now < x.start.now or (s[2] is not None and x.stop is not None and s[2].now > x.stop.now):
                            o.bad("log", f"{n}: sub-activity entry outside the execution")


def object_logs(o):
    """Expected entries of every object, as a multiset, and their state snapshots."""
    tr, sim = o.tr, o.sim
    if tr.malformed:
        return
    want = {k: [] for k in list(tr.objlog) + list(tr.replog)}
    for n, node in tr.nodes.items():
        if node["k"] == "move":
            who = [node["mover"]]
        elif node["k"] == "shift":
            who = list(dict.fromkeys([node["proc"], node["orig"], node["dest"]]))
        elif node["k"] == "basic":
            who = []
            for a in node.get("add", []):
                for x in tr.ex[n]:
                    for en in (x.w0 or []) + [x.start, x.stop]:
                        if en is not None:
                            want[a].append((tr.ids[n], en.state, round(en.t, 5), "additional log"))
            continue
        else:
            continue
        for x in tr.ex[n]:
            for en in (x.start, x.stop):
                if en is not None:
                    for w in who:
                        want[w].append((tr.ids[n], en.state, round(en.t, 5), None))
    for k, ents in list(tr.objlog.items()) + list(tr.replog.items()):
        got = [(e.e["ActivityID"], e.state, round(e.t, 5), e.typ) for e in ents]
        o.seen("obj-entry", len(got))
        a, b = collections.Counter(got), collections.Counter(want[k])
        if a != b:
            miss, extra = list((b - a).items())[:4], list((a - b).items())[:4]
            o.bad("objlog", f"{k}: missing {miss}, unexpected {extra}")
        for e in ents:
            if e.typ == "additional log" and e.ref not in tr.by_id:
                o.bad("objlog", f"{k}: additional log entry refers to {e.ref}")
            elif e.typ == "additional log" and e.ref != e.e["ActivityID"]:
                o.bad("objlog", f"{k}: additional log entry of {e.e['ActivityID']} refers to {e.ref}")
    # state snapshots
    for k, ents in tr.objlog.items():
        for e in ents:
            st = e.e["ObjectState"]
            if e.state == "WAIT_START":
                continue
            o.seen("snapshot")
            g = st.get("geometry")
            if g is not None:
                at = (g.x, g.y)
                ok = {tr.geo[k].at(e.step), tr.geo[k].before(e.step)}
                name = tr.by_id.get(e.e["ActivityID"])
                node = tr.nodes.get(name, {})
                if node.get("k") == "move" and node["mover"] == k and e.typ is None:
                    ok = {tr.geo[k].at(e.step)} if e.state == "STOP" else {tr.geo[k].before(e.step) or tr.geo[k].at(e.step)}
                if at not in ok:
                    o.bad("state", f"{k}: {e.state} entry at {e.t} records position {at}, true {ok}")
            elif k in tr.geo:
                o.bad("state", f"{k}: {e.state} entry at {e.t} records no position")
            if k in sim._cids and sim._cids[k]:
                lv = st.get("container level")
                name = tr.by_id.get(e.e["ActivityID"])
                node = tr.nodes.get(name, {})
                multi = "multi" in obj_spec(o, k)
                if lv is None or isinstance(lv, dict) != multi:
                    o.bad("state", f"{k}: {e.state} entry at {e.t} records contents {lv}")
                    continue
                rec = lv if multi else {"default": lv}
                if set(rec) != set(sim._cids[k]):
                    o.bad("state", f"{k}: {e.state} entry records contents {rec}, has {sim._cids[k]}")
                    continue
                for cid, v in rec.items():
                    tl = tr.lvl[(k, cid)]
                    a, b = tl.before(e.step), tl.at(e.step)
                    if a is None:
                        a = b
                    ok = {a, b}
                    if node.get("k") == "shift" and e.typ is None:
                        ok = {a} if e.state == "START" else {b}
                        o.seen("snapshot-level")
                    if v not in ok:
                        o.bad("state", f"{k}: {e.state} entry of {name} at {e.t} records {cid} level {v}, "
                              f"just before {a}, just after {b}")


def completion(o):
    """Bounded progress: whatever has not run is waiting on an explained obstacle."""
    tr, sim = o.tr, o.sim
    if tr.malformed or sim.outcome != "done" or sim.spec.get("until") is not None:
        return
    stuck, deadlocked = [], []
    for n in tr.nodes:
        for k, sl in enumerate(tr.slots.get(n, [])):
            o.seen("slot")
            x = sl["ex"]
            if x is not None and x.complete:
                continue
            if tr.kids[n] and x is not None and x.start is not None:
                continue  # explained by its children
            stuck.append((n, k, sl, x))
    held = {r: tl.pts[-1][2][0] for r, tl in tr.res.items()}
    caps = {r: tl.pts[-1][2][2] for r, tl in tr.res.items()}
    for n, k, sl, x in stuck:
        if x is not None and x.first is not None:
            o.bad("idle", f"{n}: execution {k} started and never ended")
            continue
        reg = _regstep(tr, n, k)
        se = tr.nodes[n].get("se")
        occ = tr.occurs(se, *reg) if (se is not None and reg) else tr.t0
        if occ is None or occ == INF:
            o.seen("stuck-condition")
            continue
        g = sim.group_of(n)
        full = [r for r in tr.needs(n) if g not in held.get(r, ()) and len(held.get(r, ())) >= caps.get(r, 1)]
        if full:
            o.seen("stuck-resource")
            deadlocked.append((n, k, max(sl["T"], occ), full))
            continue
        if tr.nodes[n]["k"] == "shift" and _content_short(o, tr.nodes[n], sim.env.nsteps + 1):
            o.bad("refused", f"{n}: execution {k} ready at {max(sl['T'], occ)} has no content or space and was never refused")
        o.bad("idle", f"{n}: execution {k} ready at {max(sl['T'], occ)} never ran although nothing it needs is taken")
    if not deadlocked or any("keep" in q for q in tr.nodes.values()):
        return  # what was kept may never be released
    o.seen("deadlock")
    waiting = {sim.group_of(n) for n, *_ in deadlocked}
    for n, k, t, full in deadlocked:
        q = tr.nodes[n]
        if any(g not in waiting for r in full for g in held.get(r, ())):
            o.bad("idle", f"{n}: execution {k} ready at {t} never ran: {full} are held by {[held[r] for r in full]}, who do not wait")
            continue
        # a transfer claims its destination, its processor and its origin one after the other
        order = list(dict.fromkeys([q["dest"], q["proc"], q["orig"]])) if q["k"] == "shift" else [q.get("mover")]
        has = [r for r in order if sim.group_of(n) in held.get(r, ())]
        mark = "[hold-and-wait] " if has == order[: len(has)] else ""
        o.bad("idle", f"{mark}{n}: execution {k} ready at {t} never ran: holds {has} and waits for {full} for ever")


def refusal(o):
    """A simulation may end with an error only where a transfer really finds nothing to do."""
    tr, sim = o.tr, o.sim
    if sim.outcome != "error":
        return
    e = sim.error
    now = sim.env.now
    if isinstance(e, ValueError) and "shift content" in str(e):
        for n, node in tr.nodes.items():
            if node["k"] != "shift":
                continue
            for k, sl in enumerate(tr.slots.get(n, [])):
                x = sl["ex"]
                if (x is not None and x.first is not None) or sl["T"] > now:
                    continue
                cid = node.get("cid", "default")
                a, b = tr.lvl[(node["orig"], cid)], tr.lvl[(node["dest"], cid)]
                cap = sim.caps.get((node["dest"], cid), 0)
                steps = [p[0] for tl in (a, b) for p in tl.pts if p[1] == now] + [sim.env.nsteps]
                if any(a.at(s) <= 0 or b.at(s) >= cap for s in steps):
                    o.seen("refusal")
                    return
        o.bad("refused", f"refused at {now} although no waiting transfer lacks content or space: {e}")
        return
    o.bad("crash", f"{type(e).__name__} at {now}: {str(e)[:300]}")


# ----------------------------------------------------------------------------- weather
def windows(w):
    """Workable windows of one period, from the record's samples alone."""
    ts_, col = list(w["data"]["ts"]), list(w["data"][w["col"]])
    if "maximum" in w:
        good = [v <= w["maximum"] for v in col]
    else:
        good = [v >= w["minimum"] for v in col]
    if all(good):
        return [(ts_[0], ts_[-1])], True
    out = []
    i = 0
    n = len(ts_)
    while i < n:
        if good[i]:
            j = i
            while j < n and good[j]:
                j += 1
            out.append((ts_[i], ts_[j] if j < n else ts_[-1]))
            i = j
        else:
            i += 1
    return out, False


def weather_start(w, t, eps=0.0):
    """Earliest start >= t: from start + window_delay the record is workable for window_length.

    With eps: of the windows that last longer than that."""
    ws, whole = windows(w)
    ts_ = list(w["data"]["ts"])
    P = ts_[-1] - ts_[0]
    L, D = w["len"], w.get("window_delay", 0)
    if whole:
        iv = [(ts_[0], ts_[-1])]
    else:
        iv = [(a - D, b - L - D) for a, b in ws if b - a > L]
    if not iv:
        return None
    for m in range(0, 100000):
        c = [max(a + m * P, t) for a, b in iv if b + m * P >= t + eps]
        if c:
            return min(c)
    return None
