"""C32: sailing over routes of a graph and over paths, at monitored positions and times."""

import random

import networkx as nx

from .. import runner
from ..boot import Routable, core, model, pyproj, shapely, simpy
from ..trace import ts

G84 = pyproj.Geod(ellps="WGS84")
POINT = shapely.geometry.Point


class Env(simpy.Environment):
    mon = None
    nsteps = 0

    def step(self):
        super().step()
        self.nsteps += 1
        if self.mon:
            self.mon()


class Ship(Routable, core.ContainerDependentMovable, core.HasResource, core.Identifiable):
    pass


class Boat(Routable, core.HasResource, core.Identifiable):
    pass


class Place(core.Identifiable, core.Log, core.Locatable, core.HasResource):
    pass


def length(coords):
    return sum(G84.inv(*p, *q)[2] for p, q in zip(coords, coords[1:]))


def partial(coords, a, b):
    """Geodesic length of the part of a line between two of its points, given as (segment, fraction)."""
    (i, f), (j, h) = sorted([a, b])

    def at(i, f):
        (x0, y0), (x1, y1) = coords[i], coords[i + 1]
        return (x0 + f * (x1 - x0), y0 + f * (y1 - y0))

    return length([at(i, f)] + list(coords[i + 1: j + 1]) + [at(j, h)])


class CHECK(runner.Check):
    id = "C32"
    technique = "monitor of positions and times of movers on random networks, against independently summed edge lengths"
    rule = ("Random networks (edges drawn in either direction, with intermediate vertices), routes with and without "
            "repeated nodes, speeds by fill degree and engine order; there and back and part way moves as activities, "
            "moves off the ends, paths, and node by node sailing with registered functions that take time. "
            "Non-trivial: a route of at least two edges or a path was sailed; distinct by times.")
    needs = ("move over route", "back", "refused", "move over path", "part of path", "edge passed", "reversed edge",
             "function called")

    def jobs(self, tier, seed):
        n = dict(quick=16000, thorough=200000)[tier]
        return [dict(kind=k, seed=f"{seed}:{k}:{i}") for k in ("route", "path", "nodes") for i in range(n)]

    def network(self, r, scale=1.0, off=0.0):
        """A network whose nodes lie at least 0.15 * scale degrees apart, with lines that end up to off from them."""
        n = r.randint(3, 8)
        x0, y0 = r.choice([(4, 52), (-60, -10), (100, 1), (10, 70)])
        nodes = []
        while len(nodes) < n:
            p = (x0 + scale * r.uniform(0, 3), y0 + scale * r.uniform(0, 3))
            if all(abs(p[0] - q[0]) + abs(p[1] - q[1]) > 0.15 * scale for q in nodes):
                nodes.append(p)
        name = r.choice([str, lambda i: f"N{i}", int])
        g = r.choice([nx.Graph, nx.Graph, nx.DiGraph])()
        for i, p in enumerate(nodes):
            g.add_node(name(i), geometry=POINT(*p))
        fwd = {}
        for i in range(n):
            for j in range(i + 1, n):
                if j == i + 1 or r.random() < 0.3:
                    mid = []
                    for _ in range(r.choice([0, 0, 1, 3])):
                        f = r.random()
                        mid.append((f, nodes[i][0] * (1 - f) + nodes[j][0] * f + scale * r.uniform(-.02, .02),
                                    nodes[i][1] * (1 - f) + nodes[j][1] * f + scale * r.uniform(-.02, .02)))
                    line = [nodes[i]] + [m[1:] for m in sorted(mid)] + [nodes[j]]
                    if off:
                        for e in (0, -1):
                            line[e] = (line[e][0] + r.uniform(-off, off), line[e][1] + r.uniform(-off, off))
                    a, b = name(i), name(j)
                    rev = r.random() < 0.5
                    geo = shapely.geometry.LineString(line[::-1] if rev else line)
                    g.add_edge(a, b, geometry=geo)
                    fwd[(a, b)], fwd[(b, a)] = line, line[::-1]
                    if g.is_directed():
                        g.add_edge(b, a, geometry=geo)
        # a walk
        cur = r.choice(list(g.nodes))
        route = [cur]
        k = r.randint(1, 7)
        for _ in range(k):
            nxt = [m for m in g.neighbors(cur)]
            if len(route) > 1 and r.random() < 0.8:
                nxt = [m for m in nxt if m != route[-2]] or nxt
            cur = r.choice(nxt)
            route.append(cur)
        return g, route, fwd

    def mover(self, r, env, xy, **kw):
        eo = r.choice([1, 1, 0.5, 1.3])
        if r.random() < 0.6:
            v0, v1 = r.uniform(1, 20), r.uniform(1, 20)
            cap = r.uniform(1, 100)
            fill = r.choice([0, 1, r.random()])
            m = Ship(env=env, name="ship", geometry=POINT(*xy), capacity=cap, level=cap * fill, engine_order=eo,
                     compute_v=lambda x: x * (v1 - v0) + v0, nr_resources=1, **kw)
            return m, (fill * (v1 - v0) + v0), eo
        v = r.uniform(1, 20)
        return Boat(env=env, name="boat", geometry=POINT(*xy), v=v, engine_order=eo, nr_resources=1, **kw), v, eo

    def work(self, job):
        r = random.Random(job["seed"])
        return getattr(self, job["kind"])(job, r)

    def activity(self, r, env, m, places, via_move):
        """Sail to places in order, as activities or directly; returns [(start, stop, end position)] and the error."""
        out = []
        err = None
        reg = {}
        eos = []
        if via_move:
            def go():
                for p in places:
                    eo = r.choice([None, None, 0.7, 1.0])
                    eos.append(eo)
                    m.activity_id = "x"
                    yield from m.move(p, engine_order=eo)
            env.process(go())
        else:
            acts = []
            for k, p in enumerate(places):
                eo = r.choice([None, 0.7, 1.0])
                eos.append(eo)
                acts.append(model.MoveActivity(env=env, registry=reg, name=f"m{k}", mover=m, destination=p, engine_order=eo))
            s = model.SequentialActivity(env=env, registry=reg, name="s", sub_processes=acts)
            model.register_processes([s])
        try:
            env.run()
        except Exception as e:  # noqa: BLE001
            err = e
        lb = m.logbook
        for a, b in zip(lb[::2], lb[1::2]):
            out.append((ts(a), ts(b), (b["ObjectState"]["geometry"].x, b["ObjectState"]["geometry"].y), a["ActivityState"] + b["ActivityState"]))
        return out, err, eos, len(lb)

    def judge(self, places, ways, out, err, eos, nlog, v, eo0, pos, refused_at, tol=1e-6):
        issues = []
        eo = eo0
        t = 0.0
        for k, (p, w) in enumerate(zip(places, ways)):
            eo = eos[k] if k < len(eos) and eos[k] is not None else eo
            if refused_at == k:
                if err is None:
                    issues.append([None, f"move {k} off the ends of the route was not refused"])
                if len(out) > k:
                    issues.append([None, f"move {k} off the ends of the route was completed"])
                if pos != ((places[k - 1].geometry.x, places[k - 1].geometry.y) if k else pos):
                    issues.append([None, "a refused move changed the position"])
                return issues
            if err is not None and len(out) <= k:
                issues.append([None, f"move {k} failed with {type(err).__name__}: {err}"])
                return issues
            want = w / (v * eo)
            a, b, at, st = out[k]
            if abs(a - t) > 1e-5 + 1e-9 * t or abs((b - a) - want) > 2e-6 + tol * want or st != "STARTSTOP":
                issues.append([None, f"move {k} of {w} m at {v * eo} m/s ran from {a} to {b}, expected {t} to {t + want}"])
                return issues
            if at != (p.geometry.x, p.geometry.y):
                issues.append([None, f"move {k} ended at {at}, not at {p.geometry.wkt}"])
            t = b
        if err is not None:
            issues.append([None, f"unexpected {type(err).__name__}: {err}"])
        if nlog != 2 * len(places):
            issues.append([None, f"{nlog} log entries for {len(places)} moves"])
        return issues

    def route(self, job, r):
        env = Env()
        g, route, fwd = self.network(r)
        env.graph = g
        ends = [g.nodes[route[0]]["geometry"], g.nodes[route[-1]]["geometry"]]
        total = sum(length(fwd[e]) for e in zip(route, route[1:]))
        at = 0 if r.random() < 0.7 else 1
        away = route[0] != route[-1] and r.random() < 0.1
        start = (ends[at].x, ends[at].y)
        if away:
            # starts off the ends of its route
            start = (start[0] + r.choice([-1, 1]) * r.uniform(0.015, 0.1), start[1])
        m, v, eo = self.mover(r, env, start, route=list(route))
        P = [Place(env=env, name=f"p{k}", geometry=POINT(e.x, e.y), nr_resources=1) for k, e in enumerate(ends)]
        k = r.randint(1, 4)
        places = [P[(at + 1 + i) % 2] for i in range(k)]
        ways = [total] * k
        refused_at = None
        if away:
            refused_at = 0
        elif route[0] != route[-1] and r.random() < 0.35:
            refused_at = r.randrange(k)
            off = r.random()
            cur = ends[(at + refused_at) % 2]
            if off < 0.3 and len(route) > 2 and g.nodes[route[1]]["geometry"] not in ends:
                q = g.nodes[route[1]]["geometry"]
            elif off < 0.5:
                q = cur
            else:
                e = r.choice(ends)
                q = POINT(e.x + r.choice([-1, 1]) * r.uniform(0.02, 0.08), e.y)
            places[refused_at] = Place(env=env, name="off", geometry=q, nr_resources=1)
        out, err, eos, nlog = self.activity(r, env, m, places, r.random() < 0.4)
        issues = self.judge(places, ways, out, err, eos, nlog, v, eo, (m.geometry.x, m.geometry.y), refused_at)
        if away and (m.geometry.x, m.geometry.y) != start:
            issues.append([None, "a refused move changed the position"])
        done = len(out)
        cnt = {"move over route": done, "back": max(0, done - 1), "refused": int(refused_at is not None), "events": env.nsteps}
        return dict(issues=issues, counters=cnt, nontrivial=len(route) > 2 and done > 0,
                    sig=runner.sig([round(o[1], 2) for o in out]))

    def path(self, job, r):
        env = Env()
        n = r.randint(2, 6)
        flat = r.random() < 0.6
        line = flat and r.random() < 0.5  # along the equator, where a part takes exactly its share
        x, y = (r.uniform(-100, 100), r.uniform(-1, 1)) if flat else (r.uniform(-100, 100), r.uniform(-70, 70))
        y = 0.0 if line else y
        cs = [(x, y)]
        for _ in range(n - 1):
            # forwards, so that the nearest point of the path is where we mean it to be
            cs.append((cs[-1][0] + r.uniform(0.2, 1), cs[-1][1] + (0 if line else r.uniform(-0.2, 0.2))))
        m, v, eo = self.mover(r, env, cs[0], path=shapely.geometry.LineString(cs))
        k = r.randint(1, 4)
        where = [(0, 0.0)]
        places, ways = [], []
        for i in range(k):
            if flat and r.random() < 0.6:
                j = r.randrange(n - 1)
                w = (j, r.choice([r.random(), r.random(), r.uniform(0.97, 1), r.uniform(0, 0.03)]))
            else:
                w = (n - 2, 1.0) if where[-1] != (n - 2, 1.0) and r.random() < 0.7 else (0, 0.0)
            (x0, y0), (x1, y1) = cs[w[0]], cs[w[0] + 1]
            xy = (x0 + w[1] * (x1 - x0), y0 + w[1] * (y1 - y0)) if w[1] not in (0, 1) else cs[w[0] + int(w[1])]
            places.append(Place(env=env, name=f"p{i}", geometry=POINT(*xy), nr_resources=1))
            ways.append(partial(cs, where[-1], w))
            where.append(w)
        part = any(w not in ((0, 0.0), (n - 2, 1.0)) for w in where)
        out, err, eos, nlog = self.activity(r, env, m, places, r.random() < 0.4)
        # parts are taken in proportion to degrees, which is within one percent near the equator
        issues = self.judge(places, ways, out, err, eos, nlog, v, eo, (m.geometry.x, m.geometry.y), None,
                            tol=0.012 if part and not line else 1e-6)
        return dict(issues=issues, nontrivial=len(out) > 0, sig=runner.sig([round(o[1], 2) for o in out]),
                    counters={"move over path": len(out), "part of path": int(part), "events": env.nsteps})

    def nodes(self, job, r):
        env = Env()
        scale = r.choice([1.0, 1.0, 0.05, 0.005])
        off = scale * 1e-3 if r.random() < 0.3 else 0.0
        g, route, fwd = self.network(r, scale, off)
        env.graph = g
        first = g.nodes[route[0]]["geometry"]
        d = r.choice([0, 0, 1, 1e-2, 1e-3, 1e-4])
        xy = (first.x + r.uniform(-d, d), first.y + r.uniform(-d, d))
        m, v, eo = self.mover(r, env, xy)
        v *= eo
        calls, seen = [], []
        takes = [r.choice([0, 0, r.uniform(1, 50)]) for _ in range(r.randint(0, 3))]

        def fn(k):
            def f(movable, a, b, route, geometry):
                calls.append((k, env.now, a, b, movable is m, list(route), [tuple(c) for c in geometry.coords]))
                return env.timeout(takes[k])
            return f

        m.on_pass_edge_functions.extend(fn(k) for k in range(len(takes)))

        def mon():
            p = (m.geometry.x, m.geometry.y, m.node)
            if not seen or seen[-1][1:] != p:
                seen.append((env.now, *p))

        env.mon = mon
        twice = r.random() < 0.2
        err = None

        def go():
            yield from m.move_over_route(list(route))
            if twice:
                yield from m.move_over_route(list(route[::-1]))

        env.process(go())
        try:
            env.run()
        except Exception as e:  # noqa: BLE001
            err = e
        issues = []

        def bad(t):
            issues.append([None, t])

        if err is not None:
            bad(f"{type(err).__name__}: {err}")
        t, want_calls, want_pos = 0.0, [], []
        legs = [route] + ([route[::-1]] if twice else [])
        cur = xy
        for leg in legs:
            p = (g.nodes[leg[0]]["geometry"].x, g.nodes[leg[0]]["geometry"].y)
            t += G84.inv(*cur, *p)[2] / v
            for a, b in zip(leg, leg[1:]):
                t += length(fwd[(a, b)]) / v
                arrive = t
                for k in range(len(takes)):
                    want_calls.append((k, t, a, b, leg, fwd[(a, b)]))
                    t += takes[k]
                want_pos.append((arrive, t, g.nodes[b]["geometry"], b))
            cur = (m.geometry.x, m.geometry.y) if False else (g.nodes[leg[-1]]["geometry"].x, g.nodes[leg[-1]]["geometry"].y)
        if not issues:
            if abs(env.now - t) > 1e-6 + 1e-9 * t:
                bad(f"sailing {route} took {env.now}, expected {t}")
            last = g.nodes[legs[-1][-1]]["geometry"]
            if not m.geometry.equals(last) or m.node != legs[-1][-1]:
                bad(f"ended at {m.geometry.wkt} node {m.node}, the route ends at {last.wkt} node {legs[-1][-1]}")
            if len(calls) != len(want_calls):
                bad(f"{len(calls)} calls of {len(takes)} functions on {len(want_pos)} edges")
            for c, w in zip(calls, want_calls):
                if c[0] != w[0] or abs(c[1] - w[1]) > 1e-6 + 1e-9 * t or c[2:4] != w[2:4] or not c[4] or c[5] != list(w[4]):
                    bad(f"function {c[0]} called at {c[1]} for {c[2:4]}, expected {w[0]} at {w[1]} for {w[2:4]}")
                    break
                if [tuple(x) for x in w[5]] != c[6]:
                    bad(f"edge {c[2:4]} passed along {c[6][:3]}, its line in this direction is {w[5][:3]}")
                    break
            # positions: at every arrival the monitor saw the end of the edge at that time
            for arrive, leave, p, b in want_pos:
                if not any(arrive - 1e-6 - 1e-9 * t <= s[0] <= leave + 1e-6 + 1e-9 * t and max(abs(s[1] - p.x), abs(s[2] - p.y)) <= off for s in seen):
                    bad(f"never at node {b} between {arrive} and {leave}")
                    break
        rev = sum(1 for a, b in zip(route, route[1:])
                  if [tuple(c) for c in g.edges[(a, b)]["geometry"].coords] != [tuple(c) for c in fwd[(a, b)]])
        return dict(issues=issues, nontrivial=len(route) > 2, sig=runner.sig([round(s[0], 2) for s in seen]),
                    counters={"edge passed": len(want_pos), "reversed edge": rev, "function called": len(calls),
                              "events": env.nsteps, "positions seen": len(seen)},
                    sample=dict(job=job, route=[str(x) for x in route], seconds=env.now, calls=len(calls)))
