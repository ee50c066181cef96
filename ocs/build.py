"""Build a simulation of the real code from a JSON scenario, run it, and record
what can be observed at its boundary.

The recorder is a simpy environment whose step() looks, after every single
processed event, at the public state of every object: the logbooks that grew,
container levels, resource users/queue, geometry.  Nothing in the code under
test is patched; what the oracles judge is a totally ordered event log.
"""

import hashlib
import signal

from .gen import walk
from .boot import (
    CriticalPathEnvironment,
    core,
    model,
    pd,
    plugins,
    shapely,
    simpy,
)


STALL = 6000  # events at one time without anything being logged, changed or requested


class StepLimit(Exception):
    """The simulation used more events than any legal run of the scenario."""


class Hang(BaseException):
    """Wall-clock watchdog: inconclusive, never a verdict."""


def _alarm(_sig, _frm):
    raise Hang()


class Watchdog:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self._old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self._old)
        return False


class _Mon:
    """Mixin: poll the observed system after every event."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.nsteps = 0
        self.sim = None
        self.step_limit = 200000

    def step(self):
        super().step()
        self.nsteps += 1
        if self.sim is not None:
            self.sim.poll()
        if self.nsteps > self.step_limit or (self.sim is not None and self.sim.idle(self) > STALL):
            raise StepLimit(self.nsteps)


class MonEnv(_Mon, simpy.Environment):
    pass


class _Sched:
    """Below the tracing environment: what was scheduled by which event, and what was processed.

    Numbers events by their calls of schedule(), as they are numbered by simpy."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.t_start = self.now
        self.sched = []  # (event, number of the event that scheduled it or None, delay)
        self.seen = []  # (time before, time after, number, event, value, priority)
        self.stops = []  # numbers of events that do nothing but end the run
        self.aborted = []  # numbers of events whose processing raised
        self._cur = None

    def schedule(self, event, *a, **k):
        delay = k.get("delay", a[1] if len(a) > 1 else 0)
        self.sched.append((event, self._cur, delay))
        super().schedule(event, *a, **k)

    def step(self):
        if not self._queue:
            return super().step()
        t, prio, n, ev = self._queue[0]
        before, self._cur = self.now, n
        stops = ev.callbacks == [simpy.core.StopSimulation.callback]  # does nothing but end the run
        try:
            super().step()
        except BaseException:
            self.aborted.append(n)
            raise
        finally:
            self._cur = None
            if stops:
                self.stops.append(n)
            else:
                self.seen.append((before, self.now, n, ev, ev._value, prio))


class MonCPEnv(_Mon, CriticalPathEnvironment, _Sched, simpy.Environment):
    pass


def _cls(name, *bases):
    return type(name, bases, {})


C = core
SITE_CLASSES = {
    "site": _cls("Site", C.Identifiable, C.Log, C.Locatable, C.HasContainer, C.HasResource),
    "site2": _cls("Site", C.HasContainer, C.HasResource, C.Locatable, C.Identifiable, C.Log),
    "msite": _cls("Site", C.Identifiable, C.Log, C.Locatable, C.HasMultiContainer, C.HasResource),
    # a site without capacity slots/containers: only a place (plus what MoveActivity needs)
    "place": _cls("Place", C.Identifiable, C.Log, C.Locatable, C.HasResource),
}
VESSEL_CLASSES = {
    "vessel": _cls(
        "TransportProcessingResource", C.ContainerDependentMovable, C.Processor, C.HasResource,
        C.LoadingFunction, C.UnloadingFunction, C.Identifiable, C.Log,
    ),
    "vessel2": _cls(
        "TransportProcessingResource", C.Processor, C.HasResource, C.ContainerDependentMovable,
        C.Identifiable, C.Log, C.LoadingFunction, C.UnloadingFunction,
    ),
    "mvessel": _cls(
        "TransportProcessingResource", C.MultiContainerDependentMovable, C.Processor, C.HasResource,
        C.LoadingFunction, C.UnloadingFunction, C.Identifiable, C.Log,
    ),
    # fixed speed movable with a hold
    "fvessel": _cls(
        "TransportProcessingResource", C.Movable, C.HasContainer, C.Processor, C.HasResource,
        C.LoadingFunction, C.UnloadingFunction, C.Identifiable, C.Log,
    ),
    # crane/cutter-like processor that cannot carry anything
    "crane": _cls(
        "Crane", C.Processor, C.HasResource, C.Locatable, C.LoadingFunction,
        C.UnloadingFunction, C.Identifiable, C.Log,
    ),
}
# Processor.process sets .activity_id on it; Locatable+Log is all it needs


def speed_fn(v):
    kind = v[0]
    if kind == "const":
        c = v[1]
        return lambda x: c
    if kind == "lin":
        ve, vf = v[1], v[2]
        return lambda x: x * (vf - ve) + ve
    raise ValueError(v)


def rate_fn(r):
    """A loading/unloading rate: a number, or a callable f(level_from, level_to) -> seconds."""
    if isinstance(r, (int, float)):
        return r
    if r[0] == "fn":  # time density a + b*x integrated over the level interval
        a, b = r[1], r[2]
        return lambda x0, x1: a * abs(x1 - x0) + b * abs(x1 * x1 - x0 * x0) / 2
    raise ValueError(r)


class Probe(model.AbstractPluginClass):
    """A plugin that records when it was called and can take simulated time."""

    def __init__(self, sim, tag, pre=0.0, post=0.0):
        self.sim, self.tag, self.pre, self.post = sim, tag, pre, post

    def pre_process(self, env, activity_log, activity, *args, **kwargs):
        self.sim.rec("probe", "pre", activity.name, self.tag, env.now)
        if self.pre:
            yield env.timeout(self.pre, value=activity.id)
            self.sim.rec("probe", "pre_done", activity.name, self.tag, env.now)

    def post_process(self, env, activity_log, activity, start_preprocessing, start_activity,
                     *args, **kwargs):
        self.sim.rec("probe", "post", activity.name, self.tag, env.now,
                     start_preprocessing, start_activity)
        if self.post:
            yield env.timeout(self.post, value=activity.id)
            self.sim.rec("probe", "post_done", activity.name, self.tag, env.now)


_ACT_CLASSES = {}


def act_class(kind, delay, wx):
    base = {
        "basic": model.BasicActivity,
        "move": model.MoveActivity,
        "shift": model.ShiftAmountActivity,
        "seq": model.SequentialActivity,
        "par": model.ParallelActivity,
        "rep": model.RepeatActivity,
        "while": model.WhileActivity,
    }[kind]
    key = (kind, bool(delay), bool(wx))
    if key not in _ACT_CLASSES:
        bases = []
        if delay:
            bases.append(plugins.HasDelayPlugin)
        if wx:
            bases.append(plugins.HasWeatherPluginActivity)
        _ACT_CLASSES[key] = base if not bases else type(base.__name__ + "P", (*bases, base), {})
    return _ACT_CLASSES[key]


class Sim:
    """One scenario, built and run, with its recorded event log."""

    def __init__(self, spec, step_limit=60000, wall=20.0, env=None, registry=None):
        self.spec = spec
        self.wall = wall
        self.shared = env is not None  # observed by whoever made the environment
        self.env = env if self.shared else (MonCPEnv if spec.get("env") == "cp" else MonEnv)(
            initial_time=spec.get("t0", 0)
        )
        if not self.shared:
            self.env.step_limit = step_limit
        self.events = []  # (kind, step, now, ...)
        self.objs, self.acts, self.nodes, self.reporters = {}, {}, {}, {}
        self.parent = {}  # node name -> parent node name
        self.registry = registry if registry is not None else {}
        self._frames, self.records = {}, []
        self._last, self.stalled = (0, None, 0), 0
        self.registered = {}  # top-level activity -> (step, time)
        self.rr = {}  # group name -> requested_resources dict
        self.error = None
        self.hang = False
        self.steplimit = False
        self.outcome = None
        self._build()

    # -- construction -------------------------------------------------------------
    def _geom(self, xy):
        return shapely.geometry.Point(*xy)

    def _build(self):
        for o in self.spec.get("objs", []):
            self.objs[o["n"]] = self._make_obj(o)
        for r in self.spec.get("reporters", []):
            self.reporters[r] = model.BasicActivity(
                env=self.env, registry={}, name=r, duration=0
            )
        names = [n["n"] for n in walk(self.spec.get("acts", []))]
        self._clash = dict(zip(names, names[1:] + names[:1])) if len(names) > 1 else {}
        self.tops = [self._make_act(n, None) for n in self.spec.get("acts", [])]
        self._watched = {}
        self._watched.update({("o", k): v for k, v in self.objs.items()})
        self._watched.update({("a", k): v for k, v in self.acts.items()})
        self._watched.update({("r", k): v for k, v in self.reporters.items()})
        self._loglen = {k: 0 for k in self._watched}
        self._levels = {}
        # numbers of resources, contents and capacities as specified
        self.nres = {o["n"]: o.get("nr", 1) for o in self.spec["objs"]}
        self.caps = {}
        for o in self.spec["objs"]:
            if "multi" in o:
                self.caps.update({(o["n"], i["id"]): i["capacity"] for i in o["multi"]})
            elif o.get("cap", 0) > 0:
                self.caps[(o["n"], "default")] = o["cap"]
        self._cids = {
            k: [i for n, i in self.caps if n == k] for k, o in self.objs.items() if hasattr(o, "container")
        }
        self._res = {}
        self._geo = {}
        self.init_levels = self.levels()
        if not self.shared:
            self.env.sim = self

    def _make_obj(self, o):
        kind = o["kind"]
        kw = dict(env=self.env, name=o["n"], geometry=self._geom(o["xy"]))
        if "id" in o:
            kw["id"] = o["id"]
        if "nr" in o:
            kw["nr_resources"] = o["nr"]
        if "multi" in o:
            kw["initials"] = [dict(i) for i in o["multi"]]
            if "store" in o:
                kw["store_capacity"] = o["store"]
        elif "cap" in o:
            kw["capacity"] = o["cap"]
            kw["level"] = o.get("lvl", 0)
        if kind in SITE_CLASSES:
            return SITE_CLASSES[kind](**kw)
        kw["loading_rate"] = rate_fn(o.get("lr", 1))
        kw["unloading_rate"] = rate_fn(o.get("ur", 1))
        if "lm" in o:
            kw["load_manoeuvring"] = o["lm"]
        if "um" in o:
            kw["unload_manoeuvring"] = o["um"]
        if kind == "fvessel":
            kw["v"] = o["v"][1]
            if "eo" in o:
                kw["engine_order"] = o["eo"]
        elif kind != "crane":
            kw["compute_v"] = speed_fn(o["v"])
            if "eo" in o:
                kw["engine_order"] = o["eo"]
        return VESSEL_CLASSES[kind](**kw)

    def expr(self, e):
        if e is None:
            return None
        if isinstance(e, list):
            return [self.expr(x) for x in e]
        if "raw" in e:  # ill-formed on purpose
            return e["raw"]
        if "and" in e:
            return {"and": [self.expr(x) for x in e["and"]]}
        if "or" in e:
            return {"or": [self.expr(x) for x in e["or"]]}
        if "c" in e:
            d = {"type": "container", "concept": self.objs[e["c"]], "state": e["st"]}
            if "lv" in e:
                d["level"] = e["lv"]
            if "id" in e:
                d["id_"] = e["id"]
            return d
        if "a" in e:
            key = {"name": "name", "id": "ID"}[e.get("by", "name")]
            val = e["a"] if key == "name" else self.spec_id(e["a"])
            return {"type": "activity", key: val, "state": "done"}
        if "t" in e:
            return {"type": "time", "start_time": e["t"]}
        if "ev" in e:  # a raw simpy event, succeeded by a helper process at time e["ev"]
            ev = self.env.event()

            def fire(env, ev=ev, at=e["ev"]):
                yield env.timeout(max(at - env.now, 0))
                ev.succeed()

            self.env.process(fire(self.env))
            return ev
        raise ValueError(e)

    def spec_id(self, name):
        salt = self.spec.get("salt")
        if salt is not None:
            return hashlib.md5(f"{salt}:{name}".encode()).hexdigest()
        if self.spec.get("clash"):
            return self._clash.get(name, f"id-{name}")
        return f"id-{name}"

    def group(self, g):
        return self.rr.setdefault(g, {})

    def weather(self, w):
        # one record for all activities with these data
        key = repr((w["data"], w.get("index")))
        df = self._frames.get(key)
        if df is None:
            df = pd.DataFrame({k: v for k, v in w["data"].items()})
            if w.get("index") == "date":
                df.index = pd.date_range("2021-03-04", periods=len(df), freq="h")
            elif w.get("index") == "sorted":  # by time, from another order
                df.index = df.index[::-1]
            elif w.get("index"):
                df.index = df.index + w["index"]
            self._frames[key] = df
            self.records.append((df, df.copy(deep=True)))
        kw = {k: w[k] for k in ("maximum", "minimum", "window_delay") if k in w}
        crit = plugins.WeatherCriterion(
            name="crit", condition=w["col"], window_length=w["len"], **kw
        )
        return crit, df

    def _make_act(self, n, parent):
        k = n["k"]
        name = n["n"]
        self.nodes[name] = n
        self.parent[name] = parent
        kw = dict(env=self.env, registry=self.registry, name=name, id=self.spec_id(name))
        if n.get("noid"):
            del kw["id"]
        if "rr" in n:
            kw["requested_resources"] = self.group(n["rr"])
        if "se" in n:
            kw["start_event"] = self.expr(n["se"])
        if "keep" in n:
            kw["keep_resources"] = [self.objs[o] for o in n["keep"]]
            if n.get("keep1"):  # a single object instead of a list
                kw["keep_resources"] = kw["keep_resources"][0]
        if "delay" in n:
            kw["delay_percentage"] = n["delay"]
        if "wx" in n:
            crit, df = self.weather(n["wx"])
            kw["metocean_criteria"] = crit
            kw["metocean_df"] = df
        if k == "basic":
            kw["duration"] = n["dur"]
            if "add" in n:
                kw["additional_logs"] = [
                    self.objs[a] if a in self.objs else self.reporters[a] for a in n["add"]
                ]
        elif k == "move":
            kw["mover"] = self.objs[n["mover"]]
            kw["destination"] = self.objs[n["dest"]]
            for a, b in (("dur", "duration"), ("eo", "engine_order")):
                if a in n:
                    kw[b] = n[a]
        elif k == "shift":
            kw["processor"] = self.objs[n["proc"]]
            kw["origin"] = self.objs[n["orig"]]
            kw["destination"] = self.objs[n["dest"]]
            for a, b in (("amount", "amount"), ("dur", "duration"), ("phase", "phase"), ("cid", "id_")):
                if a in n:
                    kw[b] = n[a]
        else:
            kw["sub_processes"] = [self._make_act(s, name) for s in n["subs"]]
            if k == "rep":
                kw["repetitions"] = n["reps"]
            if k == "while":
                kw["condition_event"] = self.expr(n["cond"])
        act = act_class(k, "delay" in n, "wx" in n)(**kw)
        for p in n.get("probes", []):
            act.register_plugin(
                Probe(self, p["tag"], p.get("pre", 0), p.get("post", 0)), priority=p["prio"]
            )
        if "rr" not in n:
            self.rr["own:" + name] = act.requested_resources
        self.acts[name] = act
        return act

    def group_of(self, name):
        return self.nodes[name].get("rr", "own:" + name)

    # -- observation ---------------------------------------------------------------
    def rec(self, kind, *data):
        self.events.append((kind, self.env.nsteps, self.env.now, *data))

    def levels(self):
        out = {}
        for k, ids in self._cids.items():
            c = self.objs[k].container
            for i in ids:
                out[(k, i)] = c.get_level(i)
                out[(k, i + "_reservations")] = c.get_level(i + "_reservations")
        return out

    def owner(self, obj, req):
        res = obj.resource
        for g, d in self.rr.items():
            if d.get(res) is req:
                return g
        return None

    def idle(self, env):
        """Number of events since the time or anything observed has changed."""
        if (env.now, len(self.events)) != self._last[1:]:
            self._last = (env.nsteps, env.now, len(self.events))
        n = env.nsteps - self._last[0]
        self.stalled = max(self.stalled, n)
        return n

    def poll(self):
        for key, w in self._watched.items():
            lb = w.logbook
            n = self._loglen[key]
            if len(lb) != n:
                for i in range(n, len(lb)):
                    self.rec("log", key[0], key[1], i, lb[i])
                self._loglen[key] = len(lb)
        lv = self.levels()
        if lv != self._levels:
            for k, v in lv.items():
                old = self._levels.get(k)
                if old != v or k not in self._levels:
                    self.rec("lvl", k[0], k[1], old, v)
            self._levels = lv
        for k, o in self.objs.items():
            r = getattr(o, "resource", None)
            if r is not None:
                st = (tuple(id(x) for x in r.users), tuple(id(x) for x in r.queue))
                if st != self._res.get(k):
                    self._res[k] = st
                    self.rec(
                        "res", k, tuple(self.owner(o, x) for x in r.users),
                        tuple(self.owner(o, x) for x in r.queue), tuple(r.users), self.nres.get(k, 1),
                    )
            g = (o.geometry.x, o.geometry.y)
            if g != self._geo.get(k):
                self.rec("geo", k, self._geo.get(k), g)
                self._geo[k] = g

    # -- run ------------------------------------------------------------------------
    def _later(self):
        w = set(self.spec.get("later", {}).values())
        return sorted(w - {"end"}) + sorted(w & {"end"})

    def _register(self, when):
        """Register the top-level activities of this moment."""
        later = self.spec.get("later", {})
        tops = [a for a in self.tops if later.get(a.name) == when]
        for a in tops:
            self.registered[a.name] = (self.env.nsteps, self.env.now)
        model.register_processes(tops)
        self.poll()

    def run(self):
        with Watchdog(self.wall):
            try:
                self.poll()
                self._register(None)
                for when in self._later():  # the rest of the model, once it has run for some time
                    if when == "end":
                        self.env.run()
                    elif when > self.env.now:
                        self.env.run(until=when)
                    self._register(when)
                if self.spec.get("until") is not None:
                    until = self.spec["until"]
                    if isinstance(until, str):  # until the end of an activity
                        until = self.acts[until].main_process
                    self.env.run(until=until)
                    if self.spec.get("resume"):
                        self.env.run()
                else:
                    self.env.run()
                self.poll()
                self.outcome = "done"
            except Hang:
                self.hang = True
                self.outcome = "hang"
            except StepLimit:
                self.steplimit = True
                self.outcome = "steplimit"
            except Exception as e:  # noqa: BLE001 - the code under test may raise anything
                self.error = e
                self.outcome = "error"
                self.env.nsteps += 1
                self.poll()
        return self
