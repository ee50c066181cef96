"""C29: exported trees, resources and concepts against the model that was built."""

import collections
import csv
import os
import random
import tempfile

import openclsim.io as ocio

from .. import exports, gen, runner
from ..build import Sim


def rows_of(path):
    with open(path, newline="") as f:
        return [tuple(r) for r in csv.reader(f)]


class CHECK(runner.Check):
    id = "C29"
    technique = "oracle over exports of generated models, recomputed from the scenario"
    rule = ("Activity trees of depth one to five (sequential, parallel, repeat, while, bare), passed as one activity, "
            "a list or a dict, with transports that have processors, movers, origins and destinations; sites and "
            "vessels as list and dict, with namespaces; files read back. Non-trivial: a tree of depth two or more.")
    needs = ("rows", "resource rows", "concepts", "file rows", "depth 3", "no resources", "shared names")

    def jobs(self, tier, seed):
        return exports.jobs(dict(quick=900, thorough=12000)[tier], f"{seed}:C29")

    def work(self, job):
        r = random.Random(job["seed"] + "x")
        fam, kw = exports.FAMS[job["f"]]
        if fam == "struct":
            kw = dict(kw, depth=r.randint(1, 5), drivers=r.random() < 0.3)
        spec = getattr(gen, fam)(random.Random(job["seed"]), **kw)
        if r.random() < 0.2:
            for n in spec["acts"]:
                n["noid"] = 1
        sim = Sim(spec)
        issues, cnt = [], collections.Counter()
        if r.random() < 0.3:  # several with one name
            for a in sim.acts.values():
                if r.random() < 0.5:
                    a.name = r.choice(["sail", "load"])
            cnt["shared names"] += 1
        if r.random() < 0.2:
            for o in sim.objs.values():
                o.name = r.choice(["ship", o.name])
        for n, a in sim.acts.items():
            node = sim.nodes[n]
            if "orig" in node and r.random() < 0.1:  # one object in two roles
                node["dest"] = node["orig"]
                a.destination = a.origin

        def bad(t):
            issues.append([None, t])

        form = r.choice(["list", "dict", "one"])
        nodes = spec["acts"] if form != "one" else spec["acts"][:1]
        tops = [sim.acts[n["n"]] for n in nodes]
        arg = {"list": lambda: list(tops), "dict": lambda: {n["n"]: t for n, t in zip(nodes, tops)}, "one": lambda: tops[0]}[form]
        base = r.choice([0, 0, 2])
        want = []

        def go(n, parent, depth):
            a = sim.acts[n["n"]]
            want.append((a.id, a.name, type(a).__name__, parent.id if parent else None, parent.name if parent else "", depth))
            for c in n.get("subs", []):
                go(c, a, depth + 1)

        for n in nodes:
            go(n, None, base)
        depth = max(w[5] for w in want) - base
        if depth >= 3:
            cnt["depth 3"] += 1
        K = ("ActivityID", "ActivityName", "ActivityClass", "ParentId", "ParentName", "ParentLevel")
        tree = ocio.get_tree_as_list(arg(), base) if base else ocio.get_tree_as_list(arg())
        got = list(zip(*(tree[k] for k in K)))
        cnt["rows"] += len(got)
        self.same(bad, "tree", got, want)
        byid = {a.id: a for a in sim.acts.values()}
        for x, i in zip(tree["activity"], tree["ActivityID"]):
            if x.id != i or x is not byid.get(i):
                bad(f"tree lists object {x.name} as {i}")
        with tempfile.TemporaryDirectory() as d:
            self.tables(r, sim, nodes, arg, [w[:5] + (w[5] - base,) for w in want], d, bad, cnt)
        return dict(issues=issues[:4], counters=dict(cnt), nontrivial=depth >= 2,
                    sig=runner.sig((form, [(w[1], w[2], w[5]) for w in want])),
                    sample=dict(job=job, form=form, activities=len(want), depth=depth))

    def same(self, bad, what, got, want):
        a, b = collections.Counter(map(repr, got)), collections.Counter(map(repr, want))
        if a != b:
            bad(f"{what}: unexpected {list(a - b)[:2]}, missing {list(b - a)[:2]}")

    def tables(self, r, sim, nodes, arg, want, d, bad, cnt):
        byid = {a.id: n for n, a in sim.acts.items()}
        acts = {byid[w[0]]: sim.acts[byid[w[0]]] for w in want}
        # resources
        res = []
        for n, a in acts.items():
            node = sim.nodes[n]
            for key, mode in (("proc", "processor"), ("mover", "mover"), ("orig", "origin"), ("dest", "destination")):
                if key in node:
                    o = sim.objs[node[key]]
                    res.append((a.id, a.name, type(a).__name__, o.id, o.name, mode))
        f = os.path.join(d, "r.csv")
        df = ocio.get_activity_resources(arg(), ofile=f)
        C = ["ActivityID", "ActivityName", "ActivityClass", "ConceptID", "ConceptName", "ConceptMode"]
        got = [tuple(x) for x in df[C].itertuples(index=False)]
        cnt["resource rows"] += len(got)
        if not res:
            cnt["no resources"] += 1
        self.same(bad, "resources", got, res)
        lines = rows_of(f)
        cnt["file rows"] += len(lines) - 1
        self.file(bad, "resources file", lines, C, res)
        # activities
        f = os.path.join(d, "a.csv")
        df = ocio.get_activities(arg(), ofile=f)
        keys = ["ActivityID", "ActivityName", "ActivityClass", "ParentId", "ParentName", "ParentLevel", "OriginID", "OriginName",
                "DestinationID", "DestinationName", "ProcessorID", "ProcessorName", "MoverID", "MoverName"]
        full = []
        for w in want:
            node = sim.nodes[byid[w[0]]]
            row = list(w)
            for key in ("orig", "dest", "proc", "mover"):
                o = sim.objs[node[key]] if key in node else None
                row += [o.id if o else None, o.name if o else ""]
            full.append(tuple(row))
        got = [tuple(None if v != v else v for v in x) for x in df[keys].itertuples(index=False)]
        self.same(bad, "activities", got, full)
        lines = rows_of(f)
        cnt["file rows"] += len(lines) - 1
        self.file(bad, "activities file", lines, keys, full)
        # concepts
        objs = list(sim.objs.values())
        if objs:
            ns = r.choice(["", "Vessel", "Site"])
            f = os.path.join(d, "c.csv")
            df = ocio.get_concepts(objs if r.random() < 0.5 else dict(enumerate(objs)), namespace=ns, ofile=f)
            C = [ns + "Name", ns + "ID", ns + "Class"]
            con = [(o.name, o.id, type(o).__name__) for o in objs]
            got = [tuple(x) for x in df[C].itertuples(index=False)]
            cnt["concepts"] += len(got)
            self.same(bad, "concepts", got, con)
            lines = rows_of(f)
            cnt["file rows"] += len(lines) - 1
            self.file(bad, "concepts file", lines, C, con)

    def file(self, bad, what, lines, cols, rows):
        if not lines or sorted(lines[0]) != sorted(cols):
            bad(f"{what}: columns {lines[:1]}, expected {cols}")
            return
        at = [lines[0].index(c) for c in cols]
        self.same(bad, what, [tuple(x[i] for i in at) for x in lines[1:]],
                  [tuple("" if v is None else str(v) for v in x) for x in rows])
