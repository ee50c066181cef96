"""Scenario generators: random models in the public vocabulary of OpenCLSim."""

import random
import zlib

BASE = [(4.0, 52.0), (4.11, 52.05), (4.3, 51.93), (3.9, 52.21), (4.02, 52.4), (4.6, 52.0)]
# kinds of content, of which the one may be part of the name of another
KINDS = [["sand", "rock", "default"], ["a", "b", "default"], ["sand", "sand_fine", "sand_fine_2"], ["a", "A", "ab"],
         ["sand 1", "sand 10", "sand 2"], ["1", "10", "2"], ["rock-2", "rock", "default-rock"],
         ["default", "default 2", "Default"], ["reservations", "res", "default"], ["x", "y", "z", "p", "q"]]
FAR = [(179.9, -17.0), (-179.8, -17.2), (0.0, 0.0), (-70.5, 41.2), (103.8, 1.2), (5.0, 78.0), (12.0, -33.9)]


# pairs of names that are easily taken for each other
ODD = [(" x%d", " X%d"), ("%d", "%d "), ("\u00fc%d", "u\u0308%d"), (".%d (%%s{0}[a])", "+%d (%%s{0}[a])"), ("'%d/\\", '"%d/\\')]


class G:
    def __init__(self, rng, ties=False):
        self.r = rng if isinstance(rng, random.Random) else random.Random(rng)
        h = zlib.crc32(repr(self.r.getstate()[1][:8]).encode())  # leaves the random numbers as they are
        self.odd = h // 16 % len(ODD) if h % 12 == 0 else None
        self.ties = ties
        self.objs, self.acts, self.reporters = [], [], []
        self.n = 0
        self.refs = []  # names of activities that certainly complete
        self.records = []  # of the weather
        self.mono = []  # (condition) that certainly occurs
        self.cut = 0  # cut the run off at a time up to this

    # -- atoms
    def kinds(self, n=3):
        ks = list(self.r.choice(KINDS))
        self.r.shuffle(ks)
        return ks[:n]

    def name(self, p):
        self.n += 1
        if self.odd is not None:
            return p + ODD[self.odd][self.n % 2] % (self.n // 2)
        return f"{p}{self.n}"

    def p(self, x):
        return self.r.random() < x

    def dur(self, hi=100.0, zero=True):
        if self.ties:
            c = [1, 2, 3, 5, 10] + ([0] if zero else [])
            return self.r.choice(c)
        if zero and self.p(0.04):
            return 0
        return self.r.uniform(0.5, hi)

    def amount(self, lo, hi):
        if self.ties or self.p(0.5):
            return float(self.r.randint(max(1, int(lo)), max(1, int(hi))))
        return self.r.uniform(lo, hi)

    def pos(self, k=None):
        if k is not None:
            return BASE[k % len(BASE)]
        return self.r.choice(BASE if self.p(0.85) else FAR)

    def near(self, xy):
        if self.p(0.8):
            return xy
        return (xy[0] + self.r.uniform(-2.5e-4, 2.5e-4), xy[1] + self.r.uniform(-2.5e-4, 2.5e-4))

    # -- decorations
    def weather(self, horizon=2000.0):
        r = self.r
        n = r.randint(3, 30)
        if self.p(0.5):
            step = r.uniform(10, 200)
            ts = [i * step for i in range(n)]
        else:
            ts, t = [], 0.0
            for _ in range(n):
                ts.append(t)
                t += r.uniform(5, 250)
        lo = r.uniform(0, horizon) if self.p(0.2) else 0.0
        ts = [x + lo for x in ts]
        vals = [r.uniform(0, 3) for _ in ts]
        if self.p(0.2):
            vals = [round(v) for v in vals]
        w = dict(data={"ts": ts, "Hs": vals}, col="Hs")
        lim = r.choice([r.uniform(0.8, 2.5), r.choice(vals)])
        if self.p(0.15):  # close to the limit throughout
            vals = [lim * (1 + r.choice([0, 1, 1, -1]) * r.choice([0.3, 0.05, 0.01, 0.002])) for _ in ts]
            w["data"]["Hs"] = vals
        w["maximum" if self.p(0.7) else "minimum"] = lim
        if self.p(0.25):  # a selection of a larger record
            w["index"] = r.choice(["date", "sorted", 1, 17, 1000])
        if self.p(0.25):  # with another quantity that is not known everywhere
            tp = [r.choice([float("nan"), r.uniform(2, 12)]) for _ in ts]
            w["data"] = {"Tp": tp, **w["data"]} if self.p(0.5) else {**w["data"], "Tp": tp}
        w["len"] = r.choice([0, r.uniform(1, 120), r.uniform(50, 300)])
        if self.p(0.3):
            w["window_delay"] = r.uniform(0, 100)
        return w

    def wx(self):
        """A weather limit that leaves at least one workable window."""
        from .oracles import weather_start

        for _ in range(8):
            w = self.weather()
            if self.records and self.p(0.4):  # another limit on the same record
                o = self.r.choice(self.records)
                w["data"] = dict(o["data"])
                w.pop("index", None)
                w.update({k: o[k] for k in ("index",) if k in o})
                lim = "maximum" if "maximum" in w else "minimum"
                w[lim] = self.r.choice([self.r.choice(o["data"]["Hs"]), self.r.uniform(min(o["data"]["Hs"]), max(o["data"]["Hs"]))])
            ts = w["data"]["ts"]
            if ts[-1] - ts[0] < 400:
                continue
            if weather_start(w, 0.0) is not None:
                self.records.append(w)
                return w
        return None

    def decorate(self, n, wx=0.0, delay=0.0, probes=0.0):
        if self.p(delay):
            n["delay"] = self.r.choice([0, 10, 25.5, 100, 150, self.r.uniform(0, 60), self.r.uniform(100, 400)])
        if self.p(wx):
            w = self.wx()
            if w:
                n["wx"] = w
        if self.p(probes):
            ps = []
            for i in range(self.r.randint(1, 3)):
                q = dict(tag=f"{n['n']}p{i}", prio=self.r.choice([0, 1, 2, 3, 5, 2.5, -1, -4]))
                if self.p(0.5):
                    q["pre"] = self.dur(20, zero=False)
                if self.p(0.4) and "delay" not in n:
                    q["post"] = self.dur(20, zero=False)
                ps.append(q)
            n["probes"] = ps
        return n

    # -- conditions
    def cond(self, depth=0, never=0.0):
        r = self.r
        k = r.random()
        if depth < 2 and k < 0.35:
            xs = [self.cond(depth + 1, never) for _ in range(r.choice([1, 2, 2, 3, 3, 4, 6]))]
            w = r.random()
            return xs if w < 0.25 else {"and": xs} if w < 0.6 else {"or": xs}
        if k < 0.55 and self.refs:
            return {"a": r.choice(self.refs), "by": r.choice(["name", "id"])}
        if k < 0.8 and self.mono:
            return dict(r.choice(self.mono))
        if never and self.p(never) and self.objs:
            cs = [o for o in self.objs if o["kind"].startswith("site") and "cap" in o]
            if cs:
                o = r.choice(cs)
                return {"c": o["n"], **r.choice([dict(st="gt", lv=o["cap"] + 1), dict(st="lt", lv=0), dict(st="le", lv=-1)])}
        if k > 0.95 and not self.ties:
            return {"ev": r.uniform(0, 400)}
        return {"t": r.uniform(0, 500) if not self.ties else r.randint(0, 20)}

    # -- structures of basic activities
    def leaf(self, se=0.2, never=0.0, **dec):
        n = dict(k="basic", n=self.name("b"), dur=self.dur())
        if self.p(se):
            n["se"] = self.cond(never=never)
        pool = [o["n"] for o in self.objs] + self.reporters
        if pool and self.p(0.3):
            n["add"] = self.r.sample(pool, min(len(pool), self.r.choice([1, 1, 2, 2, 3, 5])))
        if self.p(0.2):
            n["noid"] = 1
        return self.decorate(n, **dec)

    def tree(self, depth, se=0.2, never=0.0, leaf=None, **dec):
        r = self.r
        if depth == 0 or self.p(0.25):
            return (leaf or self.leaf)(se=se, never=never, **dec)
        k = r.choice(["seq", "seq", "par", "par", "rep", "while"])
        n = dict(k=k, n=self.name(k))
        kids = [self.tree(depth - 1, se, never, leaf, **dec) for _ in range(r.randint(1, 4 if depth < 3 else 3))]
        if depth == 1 and self.p(0.08):
            kids += [(leaf or self.leaf)(se=se, never=never, **dec) for _ in range(r.randint(2, 9))]
        if k == "while" or (k == "rep" and not self.p(0.25)):  # a while needs time to pass
            kids = kids[:3]
            kids.insert(r.randint(0, len(kids)), dict(k="basic", n=self.name("b"), dur=self.dur(zero=False)))
        if k == "rep" and self.p(0.12):  # iterations after the first take no time
            kids = [dict(k="basic", n=self.name("b"), dur=0, se={"t": self.dur(150)})]
            kids += [dict(k="basic", n=self.name("b"), dur=0) for _ in range(r.randint(0, 2))]
            pool = [o["n"] for o in self.objs] + self.reporters
            for c in kids:
                if pool and self.p(0.5):
                    c["add"] = self.r.sample(pool, min(len(pool), self.r.choice([1, 1, 2])))
        n["subs"] = kids
        if k == "rep":
            n["reps"] = r.randint(1, 4)
        if k == "while":
            n["cond"] = self.loop_cond()
        if self.p(se * 0.7):
            n["se"] = self.cond(never=never)
        return self.decorate(n, **{a: b * 0.5 for a, b in dec.items()})

    def loop_cond(self):
        """Ends within a bounded number of iterations."""
        c = self.cond(depth=1)
        if self.p(0.5):
            return [c] if self.p(0.5) else c
        return {"or": [c, {"t": self.r.uniform(10, 400)}]} if self.p(0.5) else [
            {"or": [c, {"t": self.r.uniform(10, 400)}]}]

    def names(self, n):
        return ([] if n.get("noid") else [n["n"]]) + [x for s in n.get("subs", []) for x in self.names(s)]

    # -- objects
    def site(self, xy, cap, lvl=0.0, nr=1, multi=None, **k):
        n = self.name("S")
        o = dict(n=n, kind=self.r.choice(["site", "site2"]), xy=xy, nr=nr, **k)
        if multi:
            o["kind"] = "msite"
            o["multi"] = multi
        else:
            o["cap"], o["lvl"] = cap, lvl
        self.objs.append(o)
        return o

    def rate(self, fn=True):
        if fn and self.p(0.3):
            if self.p(0.1):
                return ["fn", 0, self.r.choice([0, 0.2])]
            return ["fn", self.r.uniform(0.2, 3), self.r.uniform(0, 0.3)]
        if self.ties:
            return self.r.choice([1, 2, 0.5])
        return self.r.uniform(0.1, 5)

    def vessel(self, xy, cap, lvl=0.0, multi=None, kinds=("vessel", "vessel2", "fvessel"), fn=True, **k):
        n = self.name("V")
        r = self.r
        o = dict(n=n, kind=r.choice(kinds), xy=xy, lr=self.rate(fn), ur=self.rate(fn), **k)
        if self.ties:
            o["v"] = ["const", 1000.0]
        else:
            o["v"] = ["const", r.uniform(50, 800)] if self.p(0.4) else ["lin", r.uniform(200, 900), r.uniform(50, 190)]
        if o["kind"] == "fvessel":
            o["v"] = ["const", r.uniform(50, 800)]
        if self.p(0.4):
            o["lm"] = r.uniform(0, 1) if not self.ties else 1
        if self.p(0.4):
            o["um"] = r.uniform(0, 1) if not self.ties else 1
        if multi:
            o["kind"] = "mvessel"
            o["multi"] = multi
        else:
            o["cap"], o["lvl"] = cap, lvl
        self.objs.append(o)
        return o

    def crane(self, xy, nr=1):
        n = self.name("C")
        o = dict(n=n, kind="crane", xy=xy, lr=self.rate(), ur=self.rate(), nr=nr)
        for k in ("lm", "um"):
            if self.p(0.2):
                o[k] = 1 if self.ties else self.r.uniform(0, 1)
        self.objs.append(o)
        return o

    def shift(self, proc, o, d, phase=None, **k):
        n = dict(k="shift", n=self.name("s"), proc=proc["n"], orig=o["n"], dest=d["n"])
        if phase is None or self.p(0.3):
            n["dur"] = self.dur()
            if phase and self.p(0.5):
                n["phase"] = phase
        else:
            n["phase"] = phase
        n.update(k)
        return n

    def move(self, m, d, **k):
        n = dict(k="move", n=self.name("m"), mover=m["n"], dest=d["n"])
        if self.p(0.15):
            n["dur"] = self.dur()
        if self.p(0.25):
            n["eo"] = self.r.choice([0.5, 0.8, 1, 1.2, None])
        n.update(k)
        return n

    def spec(self, **k):
        s = dict(objs=self.objs, acts=self.acts, reporters=self.reporters)
        if self.cut:
            s["until"] = self.r.uniform(1, self.cut)
        if self.p(0.25):
            s["t0"] = self.r.choice([1.6e9, 100000.0, 12.5])
        if self.p(0.08):
            s["clash"] = 1  # the ids are names of other activities
        if not self.cut and len(self.acts) > 1 and self.p(0.12):
            later(self.r, s, self.ties)
        if self.p(0.06):
            scale_amounts(s, 2.0 ** self.r.choice([-20, -12, -7, 5, 8]))
        s.update(k)
        if s.get("t0"):
            shift_times(s, s["t0"])
        return s


def later(r, s, ties):
    """Top-level activities that are registered when the rest has run for some time, or to its end."""
    tops = s["acts"]
    top_of = {n["n"]: t["n"] for t in tops for n in walk([t])}
    whens = [float(r.choice([1, 2, 5, 20, 2.5])) if ties else r.choice([r.uniform(0, 60), r.uniform(0, 500)])
             for _ in range(r.randint(1, 2))]
    whens = sorted(set(whens))
    if r.random() < 0.4:
        whens.append("end")
    b = {t["n"]: r.choice([0, 0] + list(range(1, len(whens) + 1))) for t in tops}
    moved = {}  # place -> top-level activities that change what it holds
    for t in tops:
        for n in walk([t]):
            if n["k"] == "shift":
                for o in (n["orig"], n["dest"]):
                    moved.setdefault(o, set()).add(t["n"])

    def asks(e, conts, out):
        if isinstance(e, list):
            for x in e:
                asks(x, conts, out)
        elif isinstance(e, dict):
            if "a" in e:
                out.add(top_of[e["a"]])
            if "c" in e and conts:
                out |= moved.get(e["c"], set())
            for k in ("and", "or"):
                for x in e.get(k, []):
                    asks(x, conts, out)

    spins = any(n["k"] == "while" for n in walk(tops))  # a loop must not wait for ever for what waits in its turn
    deps = {}
    for t in tops:
        d = deps[t["n"]] = set()
        for n in walk([t]):
            asks(n.get("se"), spins, d)
            own = set()
            asks(n.get("cond"), True, own)
            if n["k"] == "while" and t["n"] not in own:  # what it waits for has to come about
                d |= own
            elif n["k"] == "while":
                asks(n.get("cond"), False, d)
    for _ in tops:
        for t, d in deps.items():
            b[t] = max([b[t]] + [b[x] for x in d])
    out = {t: whens[k - 1] for t, k in b.items() if k}
    if out and len(out) < len(tops):
        s["later"] = out


def walk(acts):
    for n in acts:
        yield n
        yield from walk(n.get("subs", []))


def scale_amounts(s, k):
    """The same model in a larger or smaller unit of content (a power of two, so that nothing is rounded)."""
    seen = set()
    s["scale"] = k

    def ex(e):
        if isinstance(e, list):
            for x in e:
                ex(x)
        elif isinstance(e, dict):
            if "lv" in e and id(e) not in seen:  # conditions may be shared
                seen.add(id(e))
                e["lv"] *= k
            for q in ("and", "or"):
                for x in e.get(q, []):
                    ex(x)

    for o in s["objs"]:
        for d in [o] + (o.get("multi") or []):
            for q in ("cap", "lvl", "capacity", "level"):
                if q in d:
                    d[q] *= k
        for q in ("lr", "ur"):
            if q in o:
                o[q] = o[q] * k if not isinstance(o[q], list) else [o[q][0], o[q][1] / k, o[q][2] / k / k]
    for n in walk(s["acts"]):
        if "amount" in n and n["amount"] is not None:
            n["amount"] *= k
        ex(n.get("se"))
        ex(n.get("cond"))


def shift_times(s, t0):
    """Time conditions and weather records were written relative to zero."""
    def ex(e):
        if isinstance(e, list):
            for x in e:
                ex(x)
        elif isinstance(e, dict):
            for k in ("t", "ev"):
                if k in e:
                    e[k] += t0
            for k in ("and", "or"):
                for x in e.get(k, []):
                    ex(x)

    def act(n):
        ex(n.get("se"))
        ex(n.get("cond"))
        if "wx" in n:
            n["wx"]["data"]["ts"] = [x + t0 for x in n["wx"]["data"]["ts"]]
        for c in n.get("subs", []):
            act(c)

    for n in s["acts"]:
        act(n)
    if s.get("until") is not None:
        s["until"] += t0
    for k, v in s.get("later", {}).items():
        if v != "end":
            s["later"][k] = v + t0


# ------------------------------------------------------------------------------ families
def driver(g, cycles=None):
    """A tree that moves material between two co-located sites; gives monotone conditions."""
    r = g.r
    xy = g.pos()
    k = r.randint(1, 5)
    parts = [r.randint(1, 32) / 4 for _ in range(k)]
    tot = sum(parts)
    add = r.choice([0, 0, r.randint(1, 40) / 4])  # what the origin keeps
    l0 = r.randint(0, 20) / 4
    over = r.choice([0, 0, r.randint(1, 40) / 4])  # what the destination can take besides
    if g.p(0.4):
        ids = g.kinds(r.randint(1, 3))
        cid = r.choice(ids)

        def many(lv, cap):
            return dict(multi=[dict(id=i, capacity=cap if i == cid else cap + 2,
                                    level=lv if i == cid else r.choice([0, 1.5, cap + 2])) for i in ids])
    else:
        cid, many = None, lambda lv, cap: {}
    with_id = dict(id=cid) if cid else {}
    a = g.site(xy, tot + add + 10, tot + add, **many(tot + add, tot + add + 10))
    b = g.site(g.near(xy), l0 + tot + over, l0, **many(l0, l0 + tot + over))
    c = g.crane(g.near(xy))
    subs = []
    for x in parts:
        if g.p(0.5):
            subs.append(dict(k="basic", n=g.name("b"), dur=g.dur(zero=False)))
        subs.append(g.shift(c, a, b, "loading", amount=x, **(dict(cid=cid) if cid else {})))
    t = dict(k="seq", n=g.name("seq"), subs=subs)
    g.acts.append(t)
    g.refs += g.names(t)
    for _ in range(3):
        x = r.choice([sum(parts[:r.randint(0, k)]), r.uniform(0, tot)])
        g.mono.append({"c": b["n"], "st": "ge" if x == tot else r.choice(["ge", "gt"]), "lv": l0 + x, **with_id})
        g.mono.append({"c": a["n"], "st": "le" if x == tot else r.choice(["le", "lt"]), "lv": tot + add - x, **with_id})
    if not add:
        g.mono.append({"c": a["n"], "st": "empty", **with_id})
    if not over:
        g.mono.append({"c": b["n"], "st": "full", **with_id})
    return t


def struct(rng, ties=False, cut=0, never=0.03, depth=None, drivers=True, se=0.25, wx=0.0, delay=0.0, probes=0.0,
           shuffle=True, ntop=None):
    g = G(rng, ties)
    g.cut = cut
    r = g.r
    g.reporters = [f"R{i}" for i in range(r.choice([0, 1, 2, 2, 4]))]
    if drivers and g.p(0.6):
        driver(g)
    nt = ntop or r.randint(1, 4)
    for i in range(nt):
        last = i == nt - 1
        t = g.tree(depth if depth is not None else r.randint(1, 3), se=se, never=never if last else 0.0,
                   wx=wx, delay=delay, probes=probes)
        g.acts.append(t)
        if not last:
            g.refs += g.names(t)
    if shuffle and g.p(0.7):
        r.shuffle(g.acts)
    return g.spec()


def transport(rng, ties=False, cut=0, wx=0.0, delay=0.0, probes=0.0, multi=None, mode=None, single=False,
              fleet=False):
    """Vessels cycling between sites; as a fleet, many vessels or many trips."""
    g = G(rng, ties)
    g.cut = cut
    r = g.r
    trips, extra = 4, 8
    nv = 1 if single else r.randint(1, 4)
    if fleet:
        nv, trips, extra = r.choice([(r.randint(5, 14), 4, 8), (r.randint(1, 2), 40, 70)])
    mode = mode or r.choice(["reserve", "reserve", "rep", "while" if nv == 1 else "rep"])
    src_xy, dst_xy = r.sample(BASE, 2) if g.p(0.85) else r.sample(BASE + FAR, 2)
    # dyadic amounts: no rounding residue is left in a container
    load = r.randint(4, 48) / 4
    ample = mode == "rep"
    nr_s = r.choice([1, 1, 1, 2, 3]) if ample else 1
    nr_d = r.choice([1, 1, 1, 2, 3]) if ample else 1
    total = load * r.randint(nv, nv + extra)
    if g.p(0.4):
        total -= r.randint(0, int(load * 4) - 1) / 4
    if ample:
        total = (12.0 * nv * trips if fleet else 200.0) + load
    multi = g.p(0.25) if multi is None else multi
    cids = ["default"] if not multi else g.kinds(r.randint(1, 4))
    cid = r.choice(cids)

    def conts(lv, cap):
        return [dict(id=i, capacity=cap if i == cid else cap + 3, level=lv if i == cid else min(1.5, cap)) for i in cids]

    kw = (lambda lv, cap: dict(multi=conts(lv, cap))) if multi else (lambda lv, cap: dict())
    cs = total + r.choice([0, r.randint(0, 40) / 4])
    src = g.site(src_xy, cs, total, nr=nr_s, **kw(total, cs))
    space = total + r.choice([0, r.randint(0, 40) / 4]) + (40.0 if ample else 0)
    dst = g.site(dst_xy, space, 0.0, nr=nr_d, **kw(0.0, space))
    cl = g.crane(g.near(src_xy), nr=r.choice([1, 1, 2])) if g.p(0.3) else None
    cu = g.crane(g.near(dst_xy), nr=r.choice([1, 1, 2])) if g.p(0.3) else None
    g.reporters = ["R0"] if g.p(0.4) else []
    together = r.choice([src_xy, dst_xy]) if fleet and g.p(0.5) else None
    for i in range(nv):
        xy = together or r.choice([src_xy, dst_xy, g.pos()])
        cap = load
        if mode in ("rep", "while"):
            cap = r.randint(4, 48) / 4
        v = g.vessel(xy, cap, 0.0, **kw(0.0, cap))
        grp = g.name("g") if g.p(0.6) else None
        ck = dict(rr=grp) if grp else {}
        sk = dict(cid=cid) if multi else {}
        amt = {}
        if mode == "rep" and g.p(0.4):
            amt = dict(amount=r.randint(1, int(cap * 5)) / 4)
        m1 = g.move(v, src, **ck)
        s1 = g.shift(cl or v, src, v, "loading", **ck, **sk, **amt)
        m2 = g.move(v, dst, **ck)
        s2 = g.shift(cu or v, v, dst, "unloading", **ck, **sk)
        acts = [m1, s1, m2, s2]
        if grp:
            for j, (n, nx) in enumerate(zip(acts, acts[1:])):
                if g.p(0.35):
                    n["keep"] = [v["n"]]
            if g.p(0.1):
                s2["keep"] = [v["n"]]
        for n in acts:
            g.decorate(n, wx, delay, probes)
        if g.p(0.3):
            b = dict(k="basic", n=g.name("b"), dur=g.dur())
            b["add"] = [v["n"]] + g.reporters
            acts.insert(r.randint(0, 4), g.decorate(b, wx, delay, probes))
        if g.p(0.35):
            acts = [dict(k="seq", n=g.name("seq"), subs=acts)]
        top = dict(k="rep" if mode == "rep" else "while", n=g.name("cyc"), subs=acts)
        if mode == "rep":
            top["reps"] = r.randint(1, trips)
        elif mode == "reserve":
            c = {"c": src["n"], "st": "le", "lv": 0, "id": (cid + "_reservations")}
            top["cond"] = r.choice([c, [c], {"or": [c]}, [{"or": [c, {"c": dst["n"], "st": "full", "id": cid}]}]])
        else:
            top["cond"] = [{"or": [{"c": src["n"], "st": "empty", "id": cid}, {"c": dst["n"], "st": "full", "id": cid}]}]
        if g.p(0.4):
            top["se"] = {"t": g.dur(300)}
        g.decorate(top, wx * 0.3, delay, probes * 0.3)
        if g.p(0.15):
            top = dict(k="seq", n=g.name("seq"), subs=[dict(k="basic", n=g.name("b"), dur=g.dur()), top])
        g.acts.append(top)
        g.refs += g.names(top)
    if g.p(0.3):
        for _ in range(r.randint(1, 2)):
            o = r.choice([src, dst])
            x = r.uniform(0, total * 0.9)
            c = ({"c": o["n"], "st": "le", "lv": total - x if not ample else total, "id": cid} if o is src
                 else {"c": o["n"], "st": "ge", "lv": x if not ample else 0.0, "id": cid})
            g.acts.append(dict(k="basic", n=g.name("b"), dur=g.dur(), se=c, add=[o["n"]]))
    if g.p(0.5):
        r.shuffle(g.acts)
    return g.spec()


def yard(rng, ties=False, cut=0, tight=False, wx=0.0, delay=0.0, probes=0.0, nr=False, budget=None,
         frac=False):
    """Many transfers between co-located stores and holds, competing for few resources.

    tight: stores are small and transfers compete for their content and space; budget:
    no order of the transfers makes one of them find nothing (so no refusal is due).
    frac: amounts that binary fractions do not represent exactly."""
    g = G(rng, ties)
    g.cut = cut
    r = g.r
    if budget is None:
        budget = tight and g.p(0.75)
    xy = g.pos()
    multi = g.p(0.35)
    cids = ["default"] if not multi else g.kinds(r.randint(1, 3))
    ns = r.randint(2, 4)
    stores = []

    def q(lo, hi):
        if frac:
            return r.choice([r.uniform(lo, hi), r.randint(int(lo * 10) + 1, int(hi * 10)) / 10, r.randint(int(lo * 3) + 1, int(hi * 3)) / 3])
        return r.randint(int(lo * 4), int(hi * 4)) / 4

    for i in range(ns):
        cap = q(5, 25) if tight else 1000.0
        lvl = min(cap, q(1, 20)) if tight else 500.0
        if tight and g.p(0.25):
            lvl = r.choice([0.0, cap, 0.25, cap - 0.25])
        ms = [dict(id=c, capacity=cap, level=lvl) for c in cids] if multi else None
        stores.append(g.site(g.near(xy), cap, lvl, nr=r.choice([1, 1, 2, 3]) if (nr or not tight) else 1, multi=ms))
    procs = []
    for i in range(r.randint(1, 3)):
        procs.append(g.crane(g.near(xy), nr=r.choice([1, 1, 2])))
    if g.p(0.5):
        cap = q(5, 25) if tight else 1000.0
        ms = [dict(id=c, capacity=cap, level=cap / 2) for c in cids] if multi else None
        v = g.vessel(xy, cap, cap / 2, multi=ms)
        procs.append(v)
        stores.append(v)
    outs, ins = {}, {}  # (store, cid) -> amounts planned

    def fits(o, d, cid, amount, reps):
        """In whatever order, nobody finds an empty origin or a full destination."""
        lv = lambda s: (s["multi"][0]["level"] if "multi" in s else s["lvl"])  # noqa: E731
        cp = lambda s: (s["multi"][0]["capacity"] if "multi" in s else s["cap"])  # noqa: E731
        a = outs.get((o["n"], cid), []) + [amount] * reps
        b = ins.get((d["n"], cid), []) + [amount] * reps
        if sum(a) - min(a) >= lv(o) or sum(b) - min(b) >= cp(d) - lv(d):
            return False
        outs[(o["n"], cid)], ins[(d["n"], cid)] = a, b
        return True

    # stores are ordered and transfers go from lower to higher: holding the destination
    # and asking for the origin cannot be circular
    for i in range(r.randint(2, 7) if not budget else r.randint(4, 14)):
        a, b = sorted(r.sample(range(len(stores)), 2))
        o, d = stores[a], stores[b]
        pr = [p for p in procs if p["kind"] == "crane"]
        p = r.choice(pr)
        if d in procs and g.p(0.5):
            p = d
        k = {}
        cid = r.choice(cids)
        wrap = g.p(0.3) and r.choice(["rep", "seq", "par"])
        reps = r.randint(1, 3) if wrap == "rep" else 1
        if budget:
            k["amount"] = q(0.25, 8)
            if not fits(o, d, cid, k["amount"], reps):
                continue
        elif frac and tight:
            if g.p(0.7):
                k["amount"] = q(0.5, 25)
        elif g.p(0.8):
            k["amount"] = g.amount(0.5, 12)
        elif not tight:
            k["amount"] = g.amount(0.5, 50)
        if multi:
            k["cid"] = cid
        n = g.shift(p, o, d, r.choice(["loading", "unloading", None]), **k)
        if g.p(0.5):
            n["se"] = {"t": g.dur(60)}
        g.decorate(n, wx, delay, probes)
        if wrap:
            n = dict(k=wrap, n=g.name("x"), subs=[n])
            if wrap == "rep":
                n["reps"] = reps
        elif g.p(0.2):
            n = dict(k="seq", n=g.name("x"), subs=[dict(k="basic", n=g.name("b"), dur=g.dur()), n])
        g.acts.append(n)
    if not g.acts:
        g.acts.append(dict(k="basic", n=g.name("b"), dur=g.dur()))
    return g.spec()


def handover(rng, ties=False, cut=0):
    """Groups of activities that share their resources and keep some between steps."""
    g = G(rng, ties)
    g.cut = cut
    r = g.r
    xy = g.pos()
    A = g.site(xy, 5000.0, 2500.0, nr=r.choice([1, 1, 2]))
    B = g.site(g.near(xy), 5000.0, 0.0, nr=r.choice([1, 1, 2]))
    X = g.site(r.choice(BASE), 5000.0, 0.0)
    vs = [g.vessel(xy, 400.0, 200.0) for _ in range(r.randint(1, 2))]
    cr = g.crane(g.near(xy))
    ngrp = r.randint(1, 3)
    for i in range(ngrp):
        grp = g.name("g")
        steps = []
        v = vs[i % len(vs)]
        for j in range(r.randint(2, 5)):
            k = r.random()
            if k < 0.2:
                n = g.move(v, A, rr=grp)
            elif k < 0.5:
                n = g.shift(v, A, v, "loading", amount=g.amount(1, 5), rr=grp)
            elif k < 0.75:
                n = g.shift(v, v, B, "unloading", amount=g.amount(1, 5), rr=grp)
            elif k < 0.85:
                n = dict(k="basic", n=g.name("b"), dur=g.dur())
            else:
                n = g.shift(r.choice([v, v, cr]), A, v, None, amount=g.amount(1, 5), rr=grp)
            if n["k"] != "basic":
                mine = [n.get("mover"), n.get("proc"), n.get("orig"), n.get("dest")]
                # a vessel may be kept freely; several groups that keep more would wait for each other
                pool = [v["n"]] if r.random() < 0.8 else [v["n"]] + [x for x in mine if x and x in (A["n"], B["n"])][:1]
                if ngrp == 1 and g.p(0.5):
                    pool = r.sample([x for x in mine if x], r.randint(1, len([x for x in mine if x])))
                if g.p(0.6):
                    n["keep"] = list(dict.fromkeys(x for x in pool if x))
                    if len(n["keep"]) == 1 and g.p(0.3):
                        n["keep1"] = 1
            g.decorate(n, 0, 0.1, 0.1)
            steps.append(n)
        # the last one of the group releases everything it uses; make it use the vessel and both sites
        last1 = g.shift(cr if ngrp == 1 else v, A, v, None, amount=1.0, rr=grp)
        last2 = g.shift(v, v, B, None, amount=1.0, rr=grp)
        steps += [last1, last2]
        top = dict(k="seq", n=g.name("seq"), subs=steps)
        if g.p(0.3):
            top = dict(k="rep", n=g.name("rep"), subs=steps, reps=r.randint(1, 3))
        if g.p(0.5):
            top["se"] = {"t": g.dur(100)}
        g.acts.append(top)
    return g.spec()


def moves(rng, ties=False, cut=0):
    """Vessels that sail between places anywhere, at any fill degree and engine order."""
    g = G(rng, ties)
    g.cut = cut
    r = g.r
    places = []
    for i in range(r.randint(2, 4)):
        xy = r.choice([r.choice(BASE), r.choice(FAR), (r.uniform(-180, 180), r.uniform(-85, 85))])
        n = g.name("P")
        g.objs.append(dict(n=n, kind=r.choice(["place", "place", "site"]), xy=xy, nr=5))
        if g.objs[-1]["kind"] == "site":
            g.objs[-1].update(cap=10, lvl=1)
        places.append(g.objs[-1])
    if g.p(0.3):  # a short trip
        x, y = r.choice(places)["xy"]
        d = r.choice([1e-3, 1e-4, 1e-5, 1e-6])
        g.objs.append(dict(n=g.name("P"), kind="place", xy=(x + d * r.uniform(-1, 1), y + d * r.uniform(-1, 1)), nr=5))
        places.append(g.objs[-1])
    follow = g.p(0.3)  # vessels that sail to one another
    for _ in range(r.randint(1, 3)):
        multi = g.p(0.4)
        cap = g.amount(1, 20)
        if multi:
            ms = [dict(id=c, capacity=g.amount(1, 20), level=0) for c in g.kinds(r.randint(1, 5))]
            for m in ms:
                m["level"] = m["capacity"] * r.choice([0, 0.25, 0.5, 1, r.random()])
            v = g.vessel(r.choice(places)["xy"], cap, multi=ms)
        else:
            v = g.vessel(r.choice(places)["xy"], cap, cap * r.choice([0, 0.5, 1, r.random()]))
        if g.p(0.3):
            v["eo"] = r.choice([0.5, 0.75, 1.1])
        others = [q for q in g.objs if "v" in q and q is not v] if follow else []
        steps = [g.move(v, r.choice(others if others and g.p(0.4) else places)) for _ in range(r.randint(1, 6))]
        if g.p(0.4):
            steps.insert(r.randint(0, len(steps)), dict(k="basic", n=g.name("b"), dur=g.dur()))
        top = dict(k="seq", n=g.name("seq"), subs=steps)
        if g.p(0.3):
            top = dict(k="rep", n=g.name("rep"), subs=steps, reps=r.randint(1, 3))
        g.acts.append(top)
    if g.p(0.06):  # very slow or very fast
        k = r.choice([1e-4, 1e-3, 100.0])
        for o in g.objs:
            if "v" in o:
                o["v"] = [x if isinstance(x, str) else x * k for x in o["v"]]
    return g.spec()


def web(rng, ties=True, cut=0):
    """Basic activities that wait for one another and share the objects that report them."""
    g = G(rng, ties)
    g.cut = cut
    r = g.r
    for _ in range(r.randint(1, 3)):
        g.site(r.choice(BASE), 10, 1)
    g.reporters = [f"R{i}" for i in range(r.randint(0, 2))]
    pool = [o["n"] for o in g.objs] + g.reporters
    for _ in range(r.randint(4, 12)):
        n = dict(k="basic", n=g.name("b"), dur=g.r.randint(1, 4) if ties else g.dur(30, zero=False))
        n["add"] = r.sample(pool, r.randint(1, min(3, len(pool))))
        if g.refs and g.p(0.6):
            xs = [{"a": x, "by": "name"} for x in r.sample(g.refs, min(len(g.refs), r.randint(1, 2)))]
            n["se"] = xs[0] if len(xs) == 1 else r.choice([xs, {"and": xs}, {"or": xs}])
        elif g.p(0.5):
            n["se"] = {"t": g.r.randint(1, 8) if ties else g.dur(30)}
        g.acts.append(n)
        g.refs.append(n["n"])
    if g.p(0.3):  # many that end at once on one object, some after they waited, and one that follows
        o, t = r.choice(pool), g.r.randint(5, 9)
        ends = []
        for _ in range(r.randint(3, 6)):
            n = dict(k="basic", n=g.name("b"), dur=r.choice([1, 2, 3, t]), add=[o])
            if n["dur"] < t:
                n["se"] = {"t": t - n["dur"]}
            ends.append(n)
        g.acts += ends
        for _ in range(r.randint(1, 2)):
            g.acts.append(dict(k="basic", n=g.name("b"), dur=2, add=[r.choice([o, r.choice(pool)])],
                               se={"a": r.choice(ends)["n"], "by": "name"}))
    if g.p(0.2):  # iterations of a repeat that take no time, reported to objects
        kids = [dict(k="basic", n=g.name("b"), dur=0, add=r.sample(pool, 1), **({"se": {"t": g.r.randint(1, 8)}} if i == 0 else {}))
                for i in range(r.randint(1, 3))]
        g.acts.append(dict(k="rep", n=g.name("rep"), subs=kids, reps=r.randint(2, 4)))
    r.shuffle(g.acts)
    return g.spec()


def scarce(rng, ties=False, cut=0, delay=0.0, probes=0.0):
    """Transfers that queue for a processor and an origin, with less in the origin than the first of them wants."""
    g = G(rng, ties)
    g.cut = cut
    r = g.r
    xy = g.pos()
    multi = g.p(0.3)
    cid, other = g.kinds(2) if multi else ("default", None)

    def conts(lv, cap):
        return dict(multi=[dict(id=cid, capacity=cap, level=lv), dict(id=other, capacity=cap, level=3.0)]) if multi else {}

    ck = dict(cid=cid) if multi else {}
    left = r.randint(8, 40) / 4
    big = r.randint(20, 200) / 4
    A = g.site(xy, 500.0, left + big, **conts(left + big, 500.0))
    p = g.crane(g.near(xy))
    q = g.crane(g.near(xy))
    q["nr"] = r.choice([1, 1, 1, 2])

    def dest():
        o = g.site(g.near(xy), 500.0, 0.0, **conts(0.0, 500.0))
        return o

    t0 = g.dur(20)
    acts = [g.shift(p, A, dest(), None, amount=big, dur=g.dur(60, zero=False) + 21, **ck)]
    acts[0]["se"] = {"t": t0}
    small = [r.randint(1, 4) / 4 for _ in range(r.randint(1, 4))]
    while sum(small) >= left:
        small.pop()
    big2 = left + r.randint(1, 40) / 4
    order = [big2] + small
    if g.p(0.5):
        r.shuffle(order)
    for x in order:
        n = g.shift(q if g.p(0.85) else g.crane(g.near(xy)), A, dest(), r.choice(["loading", None]), amount=x, **ck)
        n["se"] = {"t": t0 if g.p(0.6) else t0 + g.dur(20)}
        g.decorate(n, 0, delay, probes)
        acts.append(n)
    g.acts += acts
    if g.p(0.4):  # more content arrives in the meantime
        src = g.site(g.near(xy), 500.0, 500.0, **conts(500.0, 500.0))
        for _ in range(r.randint(1, 3)):
            g.acts.append(g.shift(q if g.p(0.4) else g.crane(g.near(xy)), src, A, None, amount=r.randint(1, 60) / 4, **ck))
            g.acts[-1]["se"] = {"t": t0 + g.dur(90)}
    if g.p(0.3):
        r.shuffle(g.acts)
    return g.spec()


def storm(rng):
    """Activities that become ready at, just before and just after the first and last moments of workable windows."""
    from .oracles import windows

    g = G(rng)
    r = g.r
    unit = r.choice([1, 1, 0.5, 30])
    ts = [0]
    for _ in range(r.randint(4, 20)):
        ts.append(ts[-1] + r.randint(1, 12) * unit)
    lo = r.choice([0, 0, r.randint(1, 300) * unit])
    ts = [float(t + lo) if g.p(0.5) else t + lo for t in ts]
    while True:
        vals = [r.choice([0.5, 1.0, 1.5, 2.0]) for _ in ts]
        key = r.choice(["maximum", "minimum"])
        w = dict(data={"ts": ts, "Hs": vals}, col="Hs", **{key: r.choice([1.0, 1.5])})
        ws, whole = windows(w)
        big = max((b - a for a, b in ws), default=0)
        if not whole and big > unit:
            break
    w["len"] = r.choice([0, unit, big - unit, r.randint(0, int(big / unit) - 1) * unit])
    if g.p(0.4):
        w["window_delay"] = r.randint(0, 12) * unit
    D, P = w.get("window_delay", 0), ts[-1] - ts[0]

    def ready():
        a, b = r.choice([x for x in ws if x[1] - x[0] > w["len"]])
        t = r.choice([a - D, b - w["len"] - D, b - w["len"] - D, b - D, b, a]) + r.choice([0, 0, 0, unit, -unit, 0.25]) + r.choice([0, 1, 2]) * P
        return max(0, t)

    for _ in range(r.randint(1, 5)):
        n = dict(k="basic", n=g.name("b"), dur=g.dur(20), wx=w)
        t = ready()
        if g.p(0.5):
            n["se"] = {"t": t}
        elif g.p(0.6):
            n = dict(k="seq", n=g.name("seq"), subs=[dict(k="basic", n=g.name("b"), dur=t), n])
        else:
            n["probes"] = [dict(tag="p", prio=1, pre=t)]
        g.acts.append(n)
    return g.spec()


def loops(rng, ties=False, cut=0, wx=0.2, probes=0.5):
    """Levels that go up and down, and loops and activities that watch them, with pre-processing."""
    g = G(rng, ties)
    g.cut = cut
    r = g.r
    xy = g.pos()
    multi = g.p(0.4)
    cid, other = g.kinds(2) if multi else ("default", None)
    l0, cap = r.randint(4, 40) / 4, 20.0

    def conts(lv):
        return dict(multi=[dict(id=cid, capacity=cap, level=lv), dict(id=other, capacity=cap, level=1.0)]) if multi else {}

    ck, ik = (dict(cid=cid), dict(id=cid)) if multi else ({}, {})
    A, B = g.site(xy, cap, l0, **conts(l0)), g.site(g.near(xy), cap, cap - l0, **conts(cap - l0))
    c = g.crane(g.near(xy))
    a, vals, subs = l0, [l0], []
    for _ in range(r.randint(3, 12)):
        up = a < cap and (a == 0 or g.p(0.5))
        x = r.randint(1, int(((cap - a) if up else a) * 4)) / 4
        if g.p(0.6):
            subs.append(dict(k="basic", n=g.name("b"), dur=g.dur(40, zero=False)))
        subs.append(g.shift(c, B if up else A, A if up else B, None, amount=x, dur=g.dur(20), **ck))
        a += x if up else -x
        vals.append(a)
    g.acts.append(dict(k="seq", n=g.name("seq"), subs=subs))

    def watch():
        o = r.choice([A, B])
        v = r.choice(vals)
        v = v if o is A else cap - v
        st = r.choice(["ge", "le", "gt", "lt", "full", "empty"])
        return {"c": o["n"], "st": st, **ik} if st in ("full", "empty") else {"c": o["n"], "st": st, "lv": v, **ik}

    for _ in range(r.randint(1, 3)):
        kids = [dict(k="basic", n=g.name("b"), dur=g.dur(25, zero=False)) for _ in range(r.randint(1, 2))]
        if g.p(0.4):  # met in some iterations; in others waited for until the time
            kids.append(dict(k="basic", n=g.name("b"), dur=g.dur(25), se={"or": [watch(), {"t": r.randint(40, 300)}]}))
        cs = [watch() for _ in range(r.choice([1, 1, 2]))]
        cond = cs[0] if len(cs) == 1 else {"and": cs}
        cond = r.choice([[{"or": [cond, {"t": r.randint(300, 600)}]}], {"or": [cond, {"t": r.randint(300, 600)}]}])
        n = dict(k="while", n=g.name("while"), subs=kids, cond=cond)
        if g.p(0.4):
            n["se"] = r.choice([{"t": g.dur(150)}, {"or": [watch(), {"t": r.randint(20, 250)}]}])
        g.decorate(n, wx, 0, probes)
        if g.p(0.2):
            n = dict(k="rep", n=g.name("rep"), subs=[n], reps=2)
        g.acts.append(n)
    for _ in range(r.randint(0, 2)):
        n = dict(k="basic", n=g.name("b"), dur=g.dur(25), se={"or": [r.choice([watch(), {"and": [watch(), watch()]}]), {"t": r.randint(200, 600)}]})
        if g.p(0.5):  # the condition has come and gone before the parent triggers it
            n = dict(k="seq", n=g.name("seq"), subs=[dict(k="basic", n=g.name("b"), dur=g.dur(150)), n])
        g.acts.append(n)
    if g.p(0.5):
        r.shuffle(g.acts)
    return g.spec()


def long(rng, ties=False):
    """Many iterations, long sequences, wide parallels and deep nesting; short for the rest."""
    g = G(rng, ties)
    r = g.r
    k = r.choice(["while", "rep", "repwhile", "seq", "par", "deep", "deep", "many"])

    def b(hi=2, **kw):
        return dict(k="basic", n=g.name("b"), dur=g.r.choice([1, 2, 3]) if ties else g.r.uniform(0.5, hi), **kw)

    if k == "while":
        n = r.choice([200, 600, 1050, 1300])
        x = b()
        t = dict(k="while", n=g.name("while"), subs=[x], cond={"t": x["dur"] * (n + r.choice([0, 0.5, -0.5]))})
    elif k == "rep":
        t = dict(k="rep", n=g.name("rep"), subs=[b() for _ in range(r.choice([1, 1, 2]))], reps=r.choice([150, 300, 700, 1100]))
    elif k == "repwhile":
        x = b()
        t = dict(k="while", n=g.name("while"), subs=[x], cond={"t": r.choice([10, 30])})
        t = dict(k="rep", n=g.name("rep"), subs=[t, b()], reps=r.choice([50, 150]))
    elif k in ("seq", "par"):
        kids = []
        for i in range(r.choice([40, 80, 140])):
            y = b(100)
            if g.p(0.1):
                y["se"] = r.choice([{"t": g.dur(60)}] + ([{"a": r.choice(kids)["n"], "by": "name"}] if kids else []))
            kids.append(y)
        t = dict(k=k, n=g.name(k), subs=kids)
        if g.p(0.3):
            t = dict(k=r.choice(["seq", "par"]), n=g.name("top"), subs=[b(), t, b()])
    elif k == "many":
        for _ in range(r.choice([60, 120, 180])):
            g.acts.append(dict(k=r.choice(["seq", "seq", "par"]), n=g.name("seq"), subs=[b(20), b(20)]))
        t = dict(k="seq", n=g.name("seq"), subs=[dict(k="seq", n=g.name("seq"), subs=[b(), b()]), b()])
    else:
        t, twice = b(), 5
        for _ in range(r.randint(8, 45)):
            kk = r.choice(["seq", "par", "rep", "while"])
            kids = [t] + [b() for _ in range(r.choice([0, 0, 1]))]
            r.shuffle(kids)
            t = dict(k=kk, n=g.name(kk), subs=kids)
            if kk == "rep":
                t["reps"] = r.choice([1, 2]) if twice else 1
                twice -= t["reps"] - 1
            if kk == "while":
                t["cond"] = {"t": r.choice([0, 1, 20])}
            if g.p(0.1):
                t["se"] = {"t": g.dur(60)}
    g.acts.append(t)
    if g.p(0.5):
        g.acts.append(b(100, se={"a": t["n"], "by": "name"}))
    return g.spec()
