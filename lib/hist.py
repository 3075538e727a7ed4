"""All histories of calls over small vocabularies: explored by TLC, replayed in the real code"""
import json
import os
import re
import shutil
import tempfile

import jsonv
import run
import uri
from jsonv import Num
from session import Session

H = re.compile(r'^<<"H", (\d+), <<([0-9, ]+)>>>>', re.M)
N = Num


class Calls:
    """calls: ("add", url, doc) ("adds", docs) ("ref", url) ("doc", doc) ("opts", auto, vali, dr) ("fadd", name, const) ("fdel", name)"""

    def __init__(self, name, dr, calls, insts, serve=(), depth=3, auto=True, vali=False, first=(), probes=()):
        self.name, self.dr, self.calls, self.insts, self.serve, self.depth, self.auto, self.vali = name, dr, list(calls), insts, list(serve), depth, auto, vali
        self.probes = probes          # formats to ask for after each call

    def start(self, s):
        for u, d in self.serve:
            if u.startswith("file://"):
                s.file(u[7:], d)
            else:
                s.serve(u, d)
        s.re = {"": ["cat", []]}
        return s.new(auto=self.auto, vali=self.vali, dr=self.dr)

    def do(self, s, l, c):
        """the number of the compiled schema, if any"""
        if c[0] == "add":
            s.add(l, c[1], c[2])
        elif c[0] == "adds":
            s.adds(l, c[1])
        elif c[0] == "ref":
            return s.compile_ref(l, c[1], "fsref" if c[1].startswith("file:") else "ref")
        elif c[0] == "doc":
            return s.compile(l, c[1])
        elif c[0] == "opts":
            s.opts(l, c[1], c[2], c[3])
        elif c[0] == "fadd":
            s.fadd(c[1], ("const", "true" if c[2] else "false", c[2]))
        elif c[0] == "fdel":
            s.fdel(c[1])

    def vocab(self):
        import random
        s = Session(random.Random(1), [])
        l = self.start(s)
        n = len(s.ops)
        for c in self.calls:
            self.do(s, l, c)
        t = s.trace([dict(ok=True, opened=0, closed=0)] * len(s.ops))
        strs = set(self.probes)
        for x in self.insts:
            jsonv.strings(x, strs)
        t["str"].update({x: [ord(c) for c in x] for x in strs})
        return dict(calls=[o[1] for o in s.ops[n:]], depth=self.depth, insts=[jsonv.enc(x) for x in self.insts], auto=self.auto, vali=self.vali, dr=self.dr,
                    str=t["str"], re=t["re"], uri=t["uri"], world=t["world"])

    def session(self, rng, h, asp, tries):
        s = Session(rng, asp)
        l = self.start(s)
        cs = []

        def probe(c, k):
            for x in rng.sample(self.insts, min(k, len(self.insts))):
                s.validate(c, x)
        for i in h:
            c = self.do(s, l, self.calls[i - 1])
            if c:
                cs.append(c)
                probe(c, tries)
            for f in self.probes:
                s.fhas(f)
                for c in cs[:2]:
                    probe(c, 2)
        for c in cs:
            probe(c, tries)
        return s


def explore(out, groups, timeout=1500):
    os.makedirs(run.WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix="mc", dir=run.WORK)
    try:
        path = os.path.join(d, "vocab.json")
        with open(path, "w") as f:
            json.dump([g.vocab() for g in groups], f)
        rc, o = run.tlc("MCLoader.tla", "MCLoader.cfg", dict(VOCAB=path, META=run.meta_file(d)), timeout=timeout)
        m = run.STATS.findall(o)
        if rc != 0 or not m:
            raise run.ToolError("TLC failed on MCLoader:\n" + re.sub(H, "", o)[-4000:])
        out.model_states += int(m[-1][1])
        res = [(int(g) - 1, [int(x) for x in h.split(",")]) for g, h in H.findall(o)]
        if len(res) != o.count('"H"') or len(res) != sum(len(g.calls) ** g.depth for g in groups):
            raise run.ToolError("output of TLC not understood")
        return sorted(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def histories(out, rng, groups, asp, tries=3, limit=10 ** 9, size=2500):
    from driver import conform
    if out.violations:
        return
    exe = run.build()
    res = explore(out, groups)
    out.count(histories_from_the_model=len(res))
    if len(res) > limit:
        res = rng.sample(res, limit)
    for i in range(0, len(res), size):
        conform(out, [groups[g].session(rng, h, asp, tries) for g, h in res[i:i + size]], exe)
        if out.violations or out.elapsed() > (400 if out.tier == "quick" else 3000):
            return


# ------------------------------------------------------------------ vocabularies

def E(*ns, **kw):
    return dict(enum=[N(n) for n in ns], **{k.replace("_", "$"): v for k, v in kw.items()})


A, B, C, D = "http://h.example/a.json", "http://h.example/b.json", "http://h.example/d/c.json", "http://h.example/none.json"
SCALARS = [N(n) for n in range(1, 10)] + [[N(n)] for n in range(1, 10)]


def binding(dr, big):
    """who may bind an identifier, and who keeps it"""
    i = "id" if dr == 4 else "$id"
    calls = [("add", A, E(1)), ("add", A, E(2)), ("adds", [dict(E(3), **{i: A})]), ("adds", [{i: C, "definitions": {"x": dict(E(4), **{i: A})}}]),
             ("adds", [dict(E(5), **{i: B}), dict(E(6), **{i: A})]), ("add", B, {"items": {"$ref": "a.json"}}), ("ref", A), ("ref", B), ("doc", {"items": {"$ref": A}})]
    if big:
        calls += [("add", C, {i: A, "enum": [N(7)]}), ("ref", C), ("ref", C + "#/definitions/x"), ("ref", B + "#/items")]
    return Calls("binding", dr, calls, SCALARS, serve=[(A, E(8)), (B, {"items": {"$ref": A}})], depth=4 if big else 3)


def names(dr, big):
    """names and pointers, before and after the documents that hold them are known"""
    i = "id" if dr == 4 else "$id"
    doc = lambda k: {"definitions": {"p": dict(E(k), **{i: "#n"}), "q": {i: "sub/s.json", "enum": [N(k + 1)], "definitions": {"r": E(k + 2)}}}, "enum": [N(k + 3)]}
    calls = [("add", A, doc(1)), ("ref", A + "#n"), ("ref", A + "#/definitions/p"), ("ref", "http://h.example/sub/s.json"), ("ref", "http://h.example/sub/s.json#/definitions/r"), ("ref", A), ("ref", A + "#none"),
             ("adds", [{i: B, "items": {"$ref": "a.json#n"}}]), ("ref", B)]
    if big:
        calls += [("ref", A + "#/definitions/none"), ("adds", [{i: "http://h.example/sub/s.json", "enum": [N(9)]}]), ("ref", A + "#/definitions/q"), ("doc", {"items": {"$ref": A + "#/definitions/q/definitions/r"}}), ("ref", D)]
    return Calls("names", dr, calls, SCALARS, serve=[(A, doc(5))], depth=4 if big else 3)


def graph(dr, big):
    """documents that refer to each other, cyclicly; one of them is missing"""
    serve = [(A, {"enum": [N(1), [N(2)]], "definitions": {"x": {"$ref": "b.json#/definitions/y"}}}), (B, {"items": {"$ref": "d/c.json"}, "definitions": {"y": E(3)}}), (C, {"anyOf": [E(4), {"$ref": "../a.json#/definitions/x"}, {"type": "array", "items": {"$ref": "../b.json"}}]})]
    calls = [("ref", A), ("ref", B), ("ref", C), ("ref", A + "#/definitions/x"), ("add", A, {"definitions": {"x": E(5)}}), ("add", B, {"items": {"$ref": D}}), ("add", D, E(6)), ("adds", [{("id" if dr == 4 else "$id"): C, "enum": [N(7)]}])]
    if big:
        calls += [("ref", C + "#/anyOf/1"), ("doc", {"items": {"$ref": B}}), ("ref", B + "#/items"), ("add", C, {"$ref": A})]
    insts = SCALARS[:7] + [[x] for x in SCALARS[:7]] + [[[x]] for x in SCALARS[:5]]
    return Calls("graph", dr, calls, insts, serve=serve, depth=4 if big else 3)


def options(big):
    """the options in force when a document is registered, and when it is compiled"""
    X = {"const": N(1), "definitions": {"d": {"$id": "#n", "const": N(2)}, "e": {"id": "#n", "const": N(3)}}}
    calls = [("opts", True, False, 4), ("opts", False, False, 7), ("opts", True, False, 99), ("add", A, X), ("ref", A), ("ref", B), ("ref", B + "#/items"), ("add", B, {"$schema": "http://json-schema.org/draft-07/schema#", "const": N(4), "items": {"const": N(5)}})]
    if big:
        calls += [("opts", False, False, 4), ("opts", True, False, 6), ("adds", [{"$schema": "http://json-schema.org/draft-04/schema#", "id": C, "const": N(6)}]), ("ref", C), ("ref", A + "#/definitions/d")]
    return Calls("options", 99, calls, SCALARS, serve=[(B, {"$schema": "http://json-schema.org/draft-04/schema#", "const": N(7), "items": {"const": N(8)}})], depth=4 if not big else 5)


def metas(big):
    """validation against meta-schemas, built-in and own"""
    M = "http://h.example/meta.json"
    D7, D4 = "http://json-schema.org/draft-07/schema#", "http://json-schema.org/draft-04/schema#"
    calls = [("opts", True, True, 7), ("opts", True, False, 7), ("opts", False, True, 4), ("add", A, {"$schema": D4, "required": []}), ("add", B, {"$schema": M, "enum": [N(1)]}), ("add", C, {"$schema": M, "title": "t", "enum": [N(2)]}),
             ("ref", A), ("ref", B), ("ref", C), ("ref", D)]
    if big:
        calls += [("add", A, {"$schema": D7, "required": []}), ("adds", [{"$schema": M, "$id": B, "enum": [N(3)]}, {"$id": D, "title": "t"}])]
    return Calls("metas", 99, calls, SCALARS[:3] + [{}], serve=[(M, {"required": ["title"]}), (A, {"$schema": D7, "required": [], "enum": [N(4)]}), (D, {"examples": N(1)})], depth=4 if big else 3, vali=True)


def files(big):
    f = lambda n: "file:///d/" + n
    calls = [("ref", f("a.json")), ("ref", f("b.json")), ("ref", f("e/c.json#/definitions/x")), ("add", f("a.json"), E(1)), ("add", f("b.json"), {"items": {"$ref": "e/c.json#/definitions/x"}}), ("ref", f("none.json"))]
    return Calls("files", 7, calls, SCALARS, serve=[(f("a.json"), {"items": {"$ref": "e/c.json"}}), (f("b.json"), {"enum": [N(2), [N(3)]]}), (f("e/c.json"), {"anyOf": [E(3, 4), {"$ref": "../b.json"}], "definitions": {"x": {"$ref": "../a.json"}}})], depth=5 if big else 3)


def formats(big):
    calls = [("fadd", "own", True), ("fadd", "own", False), ("fdel", "own"), ("fadd", "email", True), ("fadd", "email", False), ("fdel", "email"), ("ref", A), ("ref", B)]
    return Calls("formats", 7, calls, ["a@b.example", "nothing", "", N(1), None, []], serve=[(A, {"format": "own"}), (B, {"format": "email"})], depth=5 if big else 4, probes=("own", "email"))
