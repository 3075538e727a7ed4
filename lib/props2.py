"""Checks about drafts, well-formedness, meta-schemas and the loader"""
import copy
import re
import hist
import mc
import rx
import scale
import vocab
from driver import conform  # noqa: F401
from gen import Gen, NAMES, TYPES
from jsonv import Num
from props import prop, amount, batches, RawJSON  # noqa: F401
from session import Session, Raw, METAURL, META
from worlds import World, Ref

DRAFTS = (4, 6, 7)
SPELL = {d: [METAURL[d], METAURL[d], METAURL[d].rstrip("#")] for d in DRAFTS}
MAPS = ("properties", "patternProperties", "dependencies", "definitions")
LISTS = ("allOf", "anyOf", "oneOf")
ONE = ("not", "if", "then", "else", "contains", "propertyNames", "additionalItems", "additionalProperties", "items")


def subschemas(S, path=()):
    """all schema positions: (container, key) pairs, and S itself as (None, None)"""
    out = []

    def go(v):
        if not isinstance(v, dict):
            return
        for k in list(v):
            x = v[k]
            if k in MAPS and isinstance(x, dict):
                for n in x:
                    out.append((x, n))
                    go(x[n])
            elif k in LISTS or (k == "items" and isinstance(x, list)):
                if isinstance(x, list):
                    for i in range(len(x)):
                        out.append((x, i))
                        go(x[i])
            elif k in ONE:
                out.append((v, k))
                go(x)
    go(S)
    return out


def objects(S):
    """all schema objects of S"""
    out = [S] if isinstance(S, dict) else []
    for c, k in subschemas(S):
        if isinstance(c[k], dict):
            out.append(c[k])
    return out


def tries(g, S, n):
    """instances aimed at a schema that may be ill-formed"""
    out = []
    for _ in range(n):
        try:
            out.append(g.aim(S, 5) if not out or g.chance(.7) else g.mutate(g.r.choice(out)))
        except Exception:
            out.append(g.value(2))
    return out


# ------------------------------------------------------------------ C08

AW = {"type": 1, "num": 2, "str": .5, "eq": 1.5, "arr": 1.5, "obj": 2.5, "comb": 1.5, "cond": 1.2, "bool": .8}


def foreign(rng, g, S):
    """keywords that some drafts do not have, with operands good and bad, and keywords of later drafts"""
    os_ = [o for o in objects(S) if "$ref" not in o]
    for _ in range(rng.choice([1, 1, 2, 3])):
        o = rng.choice(os_)
        k = rng.choice(["const", "contains", "propertyNames", "if", "then", "else", "exclusiveMinimum", "exclusiveMaximum",
                        "examples", "default", "readOnly", "$comment", "contentEncoding", "minContains", "$defs", "unevaluatedProperties", "dependentRequired"])
        if k in o:
            continue
        if k == "const":
            o[k] = g.value(1)
        elif k in ("contains", "propertyNames", "if", "then", "else"):
            o[k] = junk(rng, g) if rng.random() < .35 else {"type": rng.choice(TYPES)} if rng.random() < .6 else rng.random() < .5
        elif k.startswith("exclusive"):
            o[k] = rng.choice([True, False, g.num(), g.num()])
            if rng.random() < .6:
                o.setdefault("minimum" if k == "exclusiveMinimum" else "maximum", g.num())
        else:
            o[k] = junk(rng, g)


def junk(rng, g):
    return rng.choice([None, True, False, Num(0), Num(1), Num("1.5"), "x", [], {}, [Num(1)], ["a", "a"], {"a": Num(1)}, [[]], {"type": "string"}, Num(-1), ""])


def draft_one(rng):
    """one document"""
    gd = rng.choice([4, 6, 7, 99])
    g = Gen(rng, gd, AW)
    g.re[""] = ["cat", []]
    S = g.schema(2)
    while not isinstance(S, dict):
        S = g.schema(2)
    S = copy.deepcopy(S)
    if rng.random() < .6:
        foreign(rng, g, S)
    xs = tries(g, S, 6)
    s = Session(rng, ["verdict"])
    p = rng.random()
    if p < .7:
        d = rng.choice([gd] * 2 + [4, 6, 7]) if gd != 99 else rng.choice(DRAFTS)
        S["$schema"] = rng.choice(SPELL[d]) if rng.random() < .85 else rng.choice(
            ["http://example.com/meta#", "", "http://json-schema.org/schema#", "https://json-schema.org/draft/2019-09/schema", "#", "http://json-schema.org/draft-03/schema#",
             "http://json-schema.org/draft-07/schema#/definitions/x", "http://json-schema.org/draft-07/"])
    if rng.random() < .25:
        inner_schema(rng, S)
    for dr in rng.sample([4, 6, 7, 99], 2):
        l = s.new(auto=rng.random() < .6, dr=dr)
        c = s.compile(l, S)
        for x in xs:
            s.validate(c, x)
    s.re = g.re
    return s


def inner_schema(rng, S):
    """$schema below the root, where it means nothing"""
    os_ = [o for o in objects(S) if o is not S and "$ref" not in o]
    for o in rng.sample(os_, min(len(os_), 2)):
        o["$schema"] = rng.choice(SPELL[rng.choice(DRAFTS)])


def draft_ids(rng):
    """id and $id"""
    g = Gen(rng, rng.choice([4, 6]), {"type": 2, "num": 1, "eq": 1})
    g.re[""] = ["cat", []]
    K = lambda: rng.choice(["id", "$id"])
    A, B = g.leaf(), g.leaf()
    t = rng.randrange(4)
    if t == 0:
        k = K()
        D = dict(A)
        D[k] = "#foo"
        if rng.random() < .3:
            D["$id" if k == "id" else "id"] = "#bar"
        S = {"definitions": {"a": D}, "properties": {"p": {"$ref": rng.choice(["#foo", "#foo", "#bar"])}}}
        mk = lambda x: {"p": x}
    elif t == 1:
        k = K()
        D = dict(A)
        D[rng.choice([k, k, K()])] = "y.json"
        S = {k: "http://h.example/x.json", "definitions": {"a": D}, "items": {"$ref": rng.choice(["y.json", "http://h.example/y.json", "./y.json#"])}}
        mk = lambda x: [x]
    elif t == 2:
        S = {"definitions": {"a": {K(): "http://h.example/sub/", "items": {"$ref": "#/definitions/s"}, "definitions": {"s": A}}, "s": B},
             "allOf": [{"$ref": "#/definitions/a"}]}
        mk = lambda x: [x]
    else:
        S = {"id": "http://h.example/a/1.json", "$id": "http://h.example/b/2.json", "definitions": {"z": dict(A)},
             "properties": {"p": {"$ref": rng.choice(["http://h.example/a/1.json", "http://h.example/b/2.json", "1.json", "2.json"]) + "#/definitions/z"}}}
        mk = lambda x: {"p": x}
    if rng.random() < .6:
        S["$schema"] = rng.choice(SPELL[rng.choice(DRAFTS)])
    s = Session(rng, ["verdict"])
    l = s.new(auto=rng.random() < .7, dr=rng.choice([4, 6, 7, 99]))
    c = s.compile(l, S)
    for x in tries(g, A, 3) + tries(g, B, 3):
        s.validate(c, mk(x))
    s.re = g.re
    return s


class DRef(dict):
    def __init__(self, url, root, frag):
        super().__init__({"$ref": url})
        self.root = root
        self.frag = frag

    @property
    def target(self):
        return lambda: self.root["definitions"].get("d", {}) if self.frag else self.root

    def __deepcopy__(self, memo):
        return self


class GraphGen(Gen):
    links = ()
    k = 0

    def reference(self, depth):
        if not self.links or not self.chance(.3):
            return None
        c = [x for x in self.links if not self.inplace or x[0] > self.k]
        if not c:
            return None
        j, url, root = self.r.choice(c)
        f = self.r.random() < .4
        return DRef(url + ("#/definitions/d" if f else self.r.choice(["", "#"])), root, f)


def draft_graph(rng):
    """documents of different drafts that refer to each other"""
    n = rng.choice([2, 2, 3, 4])
    urls = ["http://g.example/%d.json" % k for k in range(n)]
    auto = rng.random() < .8
    ldr = rng.choice([4, 6, 7, 99])
    roots = [dict() for _ in range(n)]
    parent = [None] * n
    decl = [rng.choice([0] + list(DRAFTS) * 2) for _ in range(n)]
    for k in range(1, n):
        if decl[k] == 0:
            parent[k] = rng.randrange(k)
    eff = []
    for k in range(n):
        eff.append(ldr if not auto else decl[k] or (ldr if parent[k] is None else eff[parent[k]]))
    s = Session(rng, ["verdict"])
    s.re = {"": ["cat", []]}
    for k in range(n):
        # a schema written for its draft, or for another one
        g = GraphGen(rng, eff[k] if rng.random() < .7 else rng.choice([4, 6, 7, 99]), AW, maxkw=3)
        g.re = s.re
        g.k = k
        g.links = [(j, urls[j], roots[j]) for j in range(n) if parent[j] is None and decl[j] or parent[j] == k or (j == k and decl[j])]
        g.links = [x for x in g.links if x[0] != 0 or decl[0]]
        S = g.schema(2)
        while not isinstance(S, dict) or "$ref" in S:
            S = g.schema(2)
        g.inplace = True
        D = g.schema(1)
        roots[k].update(S)
        if g.links and rng.random() < .6:
            j, u, r = rng.choice(g.links)
            roots[k].setdefault("properties", {})["r"] = DRef(u, r, False)
        if isinstance(D, bool):
            D = {"enum": [Num(1)]}
        roots[k]["definitions"] = {"d": D}
        if decl[k]:
            roots[k]["$schema"] = rng.choice(SPELL[decl[k]])
        elif rng.random() < .2:
            roots[k]["$schema"] = "http://example.com/unknown#"
        if rng.random() < .4:
            kids = [o for o in objects(roots[k]) if "$ref" not in o]
            o = rng.choice(kids)
            o.setdefault("const", g.value(0))
            if rng.random() < .5:
                o.setdefault("exclusiveMaximum", rng.choice([True, Num(3)]))
        if rng.random() < .2:
            inner_schema(rng, roots[k])
    if cyc(roots, urls):
        return draft_graph(rng)
    l = s.new(auto=auto, dr=ldr)
    how = rng.random()
    order = list(range(1, n))
    rng.shuffle(order)
    for k in order:
        if how < .5:
            s.add(l, urls[k], roots[k])
        else:
            s.serve(urls[k], roots[k])
    if decl[0] or rng.random() < .5:
        s.serve(urls[0], roots[0])
        c = s.compile_ref(l, urls[0])
    else:
        c = s.compile(l, roots[0])
    g.re = s.re
    for x in tries(g, roots[0], 8):
        s.validate(c, x)
    if rng.random() < .5:
        # a part of one of the documents
        k = rng.randrange(0 if decl[0] else 1, n)
        if k or s.http.get(urls[0]):
            part = roots[k]["definitions"]["d"]
            c = s.compile_ref(l, urls[k] + "#/definitions/d")
            for x in tries(g, part, 4) if isinstance(part, dict) else [None, Num(1)]:
                s.validate(c, x)
    return s


DIFFER = [{"const": Num(1)}, {"contains": {"type": "integer"}}, {"propertyNames": {"maxLength": Num(1)}}, {"if": {"type": "integer"}, "then": {"minimum": Num(2)}}, {"minimum": Num(1), "exclusiveMinimum": True},
          {"exclusiveMinimum": Num(1)}, {"maximum": Num(1), "exclusiveMaximum": True}, {"items": True}, {"not": False}, {"properties": {"a": False}}, {"dependencies": {"a": False}}, {"if": {"type": "string"}, "else": {"type": "array"}}]
DIFFX = [None, Num(0), Num(1), Num("1.0"), Num("1.5"), Num(2), "a", "ab", [], [Num(1)], ["a"], {}, {"a": Num(1)}, {"ab": Num(1)}]


def draft_named(rng):
    """documents and parts that are known by their identifiers: theirs is the draft of the document they stand in, or of the one
    that refers to them"""
    ldr = rng.choice([4, 6, 7, 99, 99])
    auto = rng.random() < .85
    decl = rng.choice([0, 4, 6, 7])
    root = rng.choice([0, 4, 6, 7, 4, 6, 7])
    k1 = "id" if (decl if auto and decl else ldr) in (4, 99) else "$id"
    part = dict(rng.choice(DIFFER), **{k1: rng.choice(["http://n.example/part", "#part", "part"])})
    D = {k1: "http://n.example/doc", "definitions": {"p": part, "q": dict(rng.choice(DIFFER))}}
    D.update(rng.choice(DIFFER))
    if decl:
        D["$schema"] = rng.choice(SPELL[decl])
    refs = ["http://n.example/doc", "http://n.example/doc#/definitions/q", "http://n.example/doc#/definitions/p", {"#part": "http://n.example/doc#part"}.get(part[k1], "http://n.example/part")]
    R = {"items": [{"$ref": x} for x in rng.sample(refs, rng.choice([1, 2, 4]))]}
    if root:
        R["$schema"] = rng.choice(SPELL[root])
    s = Session(rng, ["verdict"])
    l = s.new(auto=auto, dr=ldr)
    if rng.random() < .6:
        s.adds(l, [D])
    else:
        s.add(l, rng.choice(["http://m.example/x", "http://n.example/other"]), D)
    c = s.compile(l, R)
    for x in rng.sample(DIFFX, 10):
        s.validate(c, [x] * len(R["items"]) if rng.random() < .5 else [x] + [rng.choice(DIFFX) for _ in R["items"][1:]])
    s.re = {"": ["cat", []]}
    return s


def cyc(roots, urls):
    """a cycle of references that never descends (whatever keywords count)"""
    at = {}
    for u, r in zip(urls, roots):
        at[u] = at[u + "#"] = r
        at[u + "#/definitions/d"] = r.get("definitions", {}).get("d")
    state = {}

    def go(v):
        if not isinstance(v, dict):
            return False
        if state.get(id(v)):
            return state[id(v)] == 1
        state[id(v)] = 1
        out = []
        if "$ref" in v:
            out.append(at.get(v["$ref"]))
        for k in LISTS:
            if isinstance(v.get(k), list):
                out += v[k]
        for k in ("not", "if", "then", "else"):
            out.append(v.get(k))
        if isinstance(v.get("dependencies"), dict):
            out += v["dependencies"].values()
        if any([go(x) for x in out]):
            return True
        state[id(v)] = 2
        return False
    return any(go(x) for r in roots for x in [r] + objects(r))


@prop
def c08(out, rng):
    mc.small(out, [vocab.drafts_(out.tier != "quick")])
    hist.histories(out, rng, [hist.options(out.tier != "quick")], ("verdict",), limit=1500 if out.tier == "quick" else 40000)

    def make(r):
        p = r.random()
        return draft_one(r) if p < .45 else draft_ids(r) if p < .57 else draft_named(r) if p < .67 else draft_graph(r)
    batches(out, rng, amount(out, 5000, 50000), make)


# ------------------------------------------------------------------ C09

ALLKW = {"type": 1.5, "num": 2, "str": 2, "eq": 1.5, "uniq": .7, "arr": 2.5, "obj": 3, "comb": 2, "cond": 1, "bool": .5, "format": .5}
BADURI = ["%zz", "http://h.example/%", "1:x", "\u0001", "a\u007f", ":x"]


def badoperand(rng, g, k, o):
    """an operand for keyword k: mostly one that is not allowed, or barely is"""
    j = lambda: junk(rng, g)
    if k == "type":
        return rng.choice(["any", "String", "", "strin", ["string", "string"], ["string", "any"], [Num(1)], Num(1), {}, None, ["integer", "number"], [], ["null", "boolean", "null"]])
    if k in ("enum", "required") and rng.random() < .15:
        # long lists, possibly with a repetition
        n = rng.choice([5, 9, 10, 12, 17, 33, 40])
        v = [(str(i) if k == "required" or rng.random() < .5 else Num(i)) for i in range(n)]
        rng.shuffle(v)
        if rng.random() < .6:
            i, t = sorted(rng.sample(range(n), 2))
            v[rng.choice([t, n - 1])] = v[i]
        return v
    if k == "enum":
        return rng.choice([{}, None, "a", [Num(1), Num("1.0")], ["a", "a"], [{"a": Num(1), "b": Num(2)}, {"b": Num(2), "a": Num("1.0")}], [Num(1), True], [Num(0), False, None, ""],
                           [[], {}], [Num("1e1"), Num(10)], [], [Num("0"), Num("-0")], [["a", "b"], ["b", "a"]], [[Num(1)], [Num("1.00")]]])
    if k == "required":
        return rng.choice([["a", "a"], [Num(1)], "a", {}, None, True, [], ["a", "b", "a"], ["a", None], ["a", "A"]])
    if k in ("multipleOf",):
        return rng.choice([Num(0), Num(-1), Num("0.0"), Num("-0.5"), "1", None, True, Num("1e-9"), [Num(1)], Num("0e1")])
    if k in ("minimum", "maximum"):
        return rng.choice(["1", None, True, [], {}, Num("1e400"), Num("-1.5")])
    if k in ("exclusiveMinimum", "exclusiveMaximum"):
        return rng.choice([True, False, Num(1), Num("0.5"), "1", None, [], {}])
    if k in ("minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties"):
        return rng.choice([Num(-1), Num("1.5"), Num("0.5"), "1", None, True, Num("2.0"), Num("1e0"), Num("-0"), Num("1e-1"), [], {}, Num(2), Num(0), Num(3), Num("10e-1"),
                           Num("2.0000000000000000000000001"), Num("1.000000000001"), Num("-1e-20"), Num("1e-30"), Num("99999999999999999999.5"), Num("1e30"), Num("0.00000000000001e15")])
    if k == "pattern":
        p = rng.choice(rx.BAD + [None, Num(1), [], {}, True])
        if isinstance(p, str):
            g.re[p] = ["bad"]
        return p
    if k == "patternProperties":
        if rng.random() < .5:
            p = rng.choice(rx.BAD)
            g.re[p] = ["bad"]
            return {p: rng.choice([{}, {"type": "string"}])}
        return rng.choice([[], None, "a", {"": Num(1)}, {"": []}, {"": None}, True])
    if k == "format":
        return rng.choice([None, Num(1), [], {}, True, "nosuch"])
    if k == "uniqueItems":
        return rng.choice([None, Num(1), "true", [], {}])
    if k in ("additionalItems", "additionalProperties"):
        return rng.choice([None, Num(1), "x", [], [{}], True, False, {"type": "x"}])
    if k == "items":
        return rng.choice([None, Num(1), "x", [Num(1)], [{}, None], True, [True], [{"type": "x"}], [[]]])
    if k in ("properties", "definitions"):
        return rng.choice([[], None, "a", Num(1), {"a": Num(1)}, {"a": None}, {"a": []}, {"a": True}, {"a": "x"}, {"type": "x"}])
    if k == "dependencies":
        return rng.choice([[], None, "a", {"a": Num(1)}, {"a": "b"}, {"a": [Num(1)]}, {"a": ["b", "b"]}, {"a": []}, {"a": True}, {"a": None}, {"a": ["b", None]}])
    if k in LISTS:
        return rng.choice([{}, None, "a", [], [Num(1)], [{}, None], [True], [[{}]], [{}, {"type": "x"}], Num(1)])
    if k in ("contains", "propertyNames", "not", "if", "then", "else"):
        return rng.choice([[], None, "a", Num(1), True, False, [{}], {"type": "x"}, {"minLength": Num(-1)}])
    if k == "const":
        return j()
    if k == "$ref":
        return rng.choice([None, Num(1), [], {}, True] + BADURI)
    if k in ("id", "$id"):
        return rng.choice([None, Num(1), [], {}, True] + BADURI)
    if k in ("title", "description"):
        return rng.choice([None, Num(1), [], {}, True, "t"])
    return j()


KWS = ["type", "enum", "required", "multipleOf", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "minLength", "maxLength",
       "minItems", "maxItems", "minProperties", "maxProperties", "pattern", "patternProperties", "format", "uniqueItems", "additionalItems",
       "additionalProperties", "items", "properties", "definitions", "dependencies", "allOf", "anyOf", "oneOf", "contains", "propertyNames",
       "not", "if", "then", "else", "const", "$ref", "id", "$id", "title", "description"]
UNKNOWN = ["examples", "default", "foo", "", "readOnly", "$comment", "minContains", "Type", "divisibleBy", "extends", "unevaluatedItems", "contentMediaType"]


def corrupt(rng, g, S, dr):
    """changes S in one place"""
    os_ = [o for o in objects(S)]
    free = [o for o in os_ if "$ref" not in o]
    p = rng.random()
    if p < .15:
        # not a schema at all
        ps = [x for x in subschemas(S)]
        if ps:
            c, k = rng.choice(ps)
            c[k] = rng.choice([None, Num(1), "x", [], [{}], True, False, Num(0), ""])
            return
    o = rng.choice(free or os_)
    if p < .25:
        o[rng.choice(UNKNOWN)] = junk(rng, g)
        return
    if p < .35:
        a, b = rng.choice([("minLength", "maxLength"), ("minProperties", "maxProperties"), ("minItems", "maxItems")])
        n = rng.randint(0, 4)
        o[a], o[b] = Num(n + rng.choice([-1, 0, 1, 2]) if n else n + rng.choice([0, 1])), g.renote(Num(n)) if rng.random() < .3 else Num(n)
        return
    if p < .7 and [k for k in o if k in KWS]:
        k = rng.choice([k for k in o if k in KWS])
    else:
        k = rng.choice(KWS)
    if k in ("title", "description", "definitions", "id", "$id") and "$ref" in o:
        k = "$ref"
    if k in ("id", "$id") and rng.random() < .7:
        k = rng.choice(KWS[:-5])
    if k == "$ref" and "$ref" not in o:
        for x in ("title", "description", "definitions", "id", "$id"):
            if x in o:
                return
    o[k] = badoperand(rng, g, k, o)


def plain(v):
    """a copy without shared parts"""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def wf_one(rng):
    dr = rng.choice([4, 6, 7, 99])
    g = Gen(rng, dr if rng.random() < .8 else rng.choice([4, 6, 7, 99]), ALLKW)
    g.re[""] = ["cat", []]
    S = g.schema(rng.choice([1, 2, 3]))
    while not isinstance(S, dict):
        S = g.schema(2)
    S = plain(S)
    if rng.random() < .3:
        D = {n: plain(g.schema(1)) for n in rng.sample(NAMES[:6], rng.choice([1, 2]))}
        S["definitions"] = D
        n = rng.choice(list(D))
        if rng.random() < .5:
            S.setdefault("allOf", []).append({"$ref": "#/definitions/" + n})
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
        corrupt(rng, g, S, dr)
    s = Session(rng, ["verdict"])
    if dr != 99 and rng.random() < .3 and "$ref" not in S:
        S["$schema"] = METAURL[dr]
        l = s.new(auto=True)
    else:
        l = s.new(auto=rng.random() < .7, dr=dr)
    if rng.random() < .06:
        S = rng.choice([None, Num(1), "x", [], [{}], True, False])
    both = dr == 99 and rng.random() < .4
    c = s.new_schema(S) if both else s.compile(l, S)
    # the same document again, members in another order
    l = s.new(auto=True, dr=dr)
    s.compile(l, g.vary(S))
    for x in tries(g, S, 2):
        if both and rng.random() < .5:
            s.validate_both(c, S, x)
        else:
            s.validate(c, x)
    s.re = g.re
    return s


def wf_world(rng):
    """a malformed operand in some document of several"""
    dr = rng.choice([4, 6, 7, 99])
    w = World(rng, dr, {"type": 1, "num": 1, "str": .5, "eq": .7, "arr": 1.5, "obj": 2, "comb": 1.5, "cond": .4, "bool": .3}, dangling=0)
    docs = [d for d in w.docs if isinstance(d.root, dict)]
    d = rng.choice(docs)
    if rng.random() < .7:
        # ids and definitions stay as they are: other documents point at them
        for _ in range(10):
            free = [o for o in objects(d.root) if "$ref" not in o]
            if not free:
                break
            o = rng.choice(free)
            k = rng.choice([k for k in KWS if k not in o and k not in ("$ref", "id", "$id", "definitions")])
            o[k] = badoperand(rng, w.g, k, o)
            break
    s = Session(rng, ["verdict"])
    l = s.new(auto=w.schema_kw or rng.random() < .7, dr=dr if not w.schema_kw else rng.choice([99, dr]))
    w.setup(s, l)
    c = w.compile(s, l)
    for x in tries(w.g, w.docs[0].root, 2):
        s.validate(c, x)
    s.re = w.g.re
    return s


@prop
def c09(out, rng):
    mc.small(out, vocab.wellformed(out.tier != "quick"))
    batches(out, rng, amount(out, 8000, 80000), lambda r: wf_one(r) if r.random() < .7 else wf_world(r))


# ------------------------------------------------------------------ C10

# operands that a meta-schema restricts and the compiler may not look at
METAONLY = [("required", []), ("enum", []), ("type", []), ("anyOf", []), ("allOf", []), ("oneOf", []), ("examples", Num(1)), ("examples", {}), ("examples", []),
            ("readOnly", Num(1)), ("readOnly", True), ("$comment", Num(1)), ("$comment", "x"), ("contentMediaType", Num(1)), ("contentEncoding", True),
            ("dependencies", {"a": []}), ("dependencies", {"a": ["b", "b"]}), ("default", {"type": Num(1)}), ("minItems", Num("1.0")), ("title", Num(1)),
            ("enum", [Num(1), Num("1.0")]), ("const", Num(1)), ("contains", Num(1)), ("propertyNames", []), ("if", Num(1)), ("then", None),
            ("exclusiveMinimum", Num(1)), ("exclusiveMinimum", True), ("exclusiveMaximum", False), ("format", Num(3)), ("multipleOf", Num("0.5")),
            ("additionalProperties", []), ("additionalItems", None), ("unknown", Num(1)), ("id", Num(1)), ("$id", Num(1)),
            ("description", "d"), ("items", True), ("not", False), ("definitions", {"x": {"required": []}}), ("definitions", {"x": {"minLength": Num(-1)}})]
# patterns go through the format "regex", identifiers through "uri-reference" or "uri"


def metadoc(rng, g, dr):
    """a schema that its meta-schema may reject"""
    S = g.schema(rng.choice([1, 1, 2]))
    while not isinstance(S, dict):
        S = g.schema(1)
    S = plain(S)
    if rng.random() < .2:
        S["definitions"] = {"d": plain(g.schema(1))}
        if rng.random() < .5:
            S.setdefault("properties", {})["q"] = {"$ref": "#/definitions/d"}
    p = rng.random()
    if p < .45:
        o = rng.choice([o for o in objects(S) if "$ref" not in o])
        k, v = rng.choice(METAONLY)
        o[k] = plain(v)
    elif p < .65:
        corrupt(rng, g, S, dr)
    elif p < .7:
        S = rng.choice([True, False, None, [], "x", Num(1)])
    return S


def usermeta(rng, k):
    """a meta-schema of the user's"""
    b = METAURL[rng.choice(DRAFTS)]
    if k == 0:
        return {"type": "object", "required": ["title"]}
    if k == 1:
        return {"$schema": b, "allOf": [{"$ref": b}], "required": ["title"], "properties": {"minLength": {"maximum": Num(3)}}}
    if k == 2:
        return {"$schema": METAURL[7], "properties": {"properties": {"additionalProperties": {"$ref": "#"}}, "maxLength": False, "type": {"type": "string"}}}
    if k == 3:
        return {"$schema": METAURL[4], "definitions": {"s": {"not": {"required": ["enum"]}}}, "allOf": [{"$ref": "#/definitions/s"}, {"$ref": METAURL[4]}]}
    if k == 4:
        return {"type": "nonsense"}
    if k == 5:
        return {"allOf": [{"$ref": "#/definitions/none"}]}
    return {"$schema": METAURL[6], "$ref": METAURL[6]}


def meta_session(rng):
    dr = rng.choice([4, 6, 7, 7, 99, 99])
    s = Session(rng, ["verdict"], meta=True)
    auto = rng.random() < .8
    opt = dict(auto=auto, vali=rng.random() < .85, dr=dr)
    l = s.new(**opt)
    s.re = {"": ["cat", []]}
    metas = []
    for k in rng.sample(range(7), rng.choice([0, 1, 2])):
        u = "http://meta.example/m%d.json" % k
        M = usermeta(rng, k)
        if rng.random() < .5:
            s.serve(u, M)
        elif rng.random() < .6:
            # known before anything is checked
            s.opts(l, **dict(opt, vali=False))
            s.add(l, u, M)
            s.opts(l, **opt)
        else:
            s.add(l, u, M)
        metas.append(u)
    if rng.random() < .15:
        metas.append("http://meta.example/missing.json")
    anon = False
    added = []
    comp = []
    for step in range(rng.choice([2, 3, 4, 6])):
        g = Gen(rng, dr if rng.random() < .7 else rng.choice([4, 6, 7]), {"type": 2, "num": 1.5, "str": 1, "eq": 1, "arr": 1, "obj": 2, "comb": 1, "cond": .5, "bool": .3}, maxkw=3)
        g.re = s.re
        S = metadoc(rng, g, dr)
        if isinstance(S, dict) and "$ref" not in S:
            p = rng.random()
            if p < .5:
                S["$schema"] = rng.choice(SPELL[rng.choice(DRAFTS)])
            elif p < .7 and metas:
                S["$schema"] = rng.choice(metas)
                if S["$schema"].endswith("m3.json") and rng.random() < .4:
                    S["$schema"] += rng.choice(["#/definitions/s", "#", "#/allOf/1", "#/none"])
            elif p < .73:
                S["$schema"] = rng.choice([Num(1), None, "%zz", []])
            if rng.random() < .4 and not S.get("title"):
                S["title"] = "t"
        p = rng.random()
        if p < .15:
            opt = dict(auto=opt["auto"], vali=rng.random() < .8, dr=rng.choice([dr, dr, 4, 6, 7, 99]))
            s.opts(l, **opt)
        elif p < .4:
            u = "http://d.example/%d.json" % step
            s.add(l, u, S)
            added.append((u, S))
            if rng.random() < .7:
                c = s.compile_ref(l, u)
                comp.append((c, S, g))
                # a failed add leaves the name free: it would be fetched
        elif p < .53:
            # a document, or part of one, that nothing has looked at before
            u = "http://e.example/%d.json" % step
            if rng.random() < .5:
                s.serve(u, S)
            else:
                s.opts(l, **dict(opt, vali=False))
                s.add(l, u, S)
                s.opts(l, **opt)
            parts = [("", S)]
            # parts of documents whose $schema is malformed: open
            if isinstance(S, dict) and "$ref" not in S and isinstance(S.get("$schema", ""), str) and S.get("$schema") != "%zz":
                for k, v in S.items():
                    if k in MAPS and isinstance(v, dict):
                        parts += [("#/%s/%s" % (k, n.replace("~", "~0").replace("/", "~1")), t) for n, t in v.items() if re.fullmatch(r"[a-z/~]*", n)]
                    elif k in ("not", "items", "additionalProperties", "if", "then", "else", "contains", "propertyNames"):
                        parts.append(("#/" + k, v))
                    elif k in ("allOf", "anyOf", "oneOf") and isinstance(v, list):
                        parts += [("#/%s/%d" % (k, i), t) for i, t in enumerate(v)]
            f, t = rng.choice(parts[1:] or parts) if rng.random() < .8 else parts[0]
            c = s.compile_ref(l, u + f)
            comp.append((c, t, g))
            if rng.random() < .4:
                f, t = rng.choice(parts)
                comp.append((s.compile_ref(l, u + f), t, g))
        elif p < .62:
            s.adds(l, [S, plain(S)] if rng.random() < .3 else [S])
        else:
            if anon:
                l = s.new(**opt)
            anon = True
            c = s.compile(l, S)
            comp.append((c, S, g))
    for c, S, g in comp:
        for x in tries(g, S, 2):
            s.validate(c, x)
    return s


@prop
def c10(out, rng):
    hist.histories(out, rng, [hist.metas(out.tier != "quick")], ("verdict",), limit=20000)
    import run
    conform(out, [meta_table(rng, d, k, deep) for d in DRAFTS for k in META_KWS for deep in ((False,) if out.tier == "quick" else (False, True, True, True))], run.build())
    batches(out, rng, amount(out, 2500, 30000), meta_session, size=1500)


def meta_table(rng, d, k, deep):
    """one keyword with every operand, under the meta-schema of one draft"""
    s = Session(rng, ["verdict"], meta=True)
    s.re = {t: ["cat", [["any"] if c == "." else ["chr", ord(c)] for c in t]] for t in ("", "a", "string", "object", "type", "http://x.example/y")}
    l = s.new(auto=True, vali=True, dr=rng.choice([d, 99]))
    ops = [None, True, False, Num(0), Num(1), Num(-1), Num("1.0"), Num("0.5"), Num("-0.5"), "", "a", "string", "http://x.example/y", [], ["a"], ["a", "a"], ["string", "null"], [Num(1)], [{}], [True],
           [{}, Num(1)], {}, {"a": {}}, {"a": True}, {"a": Num(1)}, {"a": ["b"]}, {"a": []}, {"a": ["b", "b"]}, {"type": "string"}, {"type": "x"}, [None], "object", ["object", "x"]]
    for n, v in enumerate(ops):
        if k in ("$ref", "id", "$id") and isinstance(v, str):
            continue
        o = {k: v}
        if k.startswith("exclusive") and isinstance(v, bool) and rng.random() < .8:
            o["minimum" if k == "exclusiveMinimum" else "maximum"] = Num(1)
        if deep:
            w = rng.choice(["properties", "items", "allOf", "not", "definitions", "additionalProperties", "dependencies", "patternProperties"])
            o = {w: {"a": o} if w in MAPS else [o] if w == "allOf" else o}
        o["$schema"] = METAURL[d]
        s.add(l, "http://t.example/%d" % n, o)
    return s


META_KWS = KWS + ["default", "examples", "readOnly", "$comment", "contentMediaType", "contentEncoding", "unknown", "$schemas"]


# ------------------------------------------------------------------ C11

def registry_world(rng):
    dr = rng.choice([4, 6, 7, 99])
    idk = "id" if dr == 4 else "$id" if dr != 99 else None
    key = lambda: idk or rng.choice(["id", "$id"])
    s = Session(rng, ["verdict", "fetch"])
    l = s.new(auto=rng.random() < .7, dr=dr)
    tag = [0]
    names = []            # identifiers that are or will be known
    known_now = []
    means = {}            # what they should mean
    comp = []
    ncl = [0]

    def leaf():
        tag[0] += 1
        T = {"enum": [Num(tag[0])]}
        # keywords that make no difference
        for k, v in (("type", rng.choice(["integer", ["string", "number"]])), ("title", "t"), ("description", ""), ("minimum", Num(0)), ("allOf", [{}]), ("required", ["a"]),
                     ("properties", {"a": {"type": "null"}}), ("items", {}), ("default", Num(0)), ("not", {"type": "object"}), ("additionalProperties", False)):
            if rng.random() < .15:
                T[k] = v
        return T

    def document(root=None):
        """a document and the identifiers below it, relative to its base"""
        D = leaf()
        base = root
        if root and rng.random() < .8:
            D[key()] = root
        known = [("", tag[0])]
        if rng.random() < .6:
            defs = {}
            for n in rng.sample(["a", "b", "x/y", "z~"], rng.choice([1, 2])):
                T = leaf()
                p = rng.random()
                v = tag[0]
                taken = [m for m in names if "#/" not in m and m != root and m not in [x.get("id", x.get("$id")) for x in defs.values()]]
                if taken and p < .15:
                    # an identifier of another document: whichever is known first keeps it
                    T[key()] = rng.choice(taken)
                elif p < .25:
                    T[key()] = "#name%d" % tag[0]
                    known.append(("#name%d" % tag[0], v))
                elif p < .45:
                    T[key()] = "http://emb.example/e%d.json" % tag[0]
                    known.append(("http://emb.example/e%d.json" % tag[0], v))
                elif p < .6:
                    T[key()] = "rel%d.json" % tag[0]
                    known.append(("rel%d.json" % tag[0], v))
                else:
                    known.append(("#/definitions/" + n.replace("~", "~0").replace("/", "~1"), v))
                defs[n] = T
            D["definitions"] = defs
        return D, known

    def pick(n):
        return Num(means[n] if n in means and rng.random() < .6 else rng.randint(1, tag[0] + 1))

    def absolute(base, r):
        if r.startswith(("http", "file")):
            return r
        if r.startswith("#"):
            return base + r
        if r == "":
            return base
        return base.rsplit("/", 1)[0] + "/" + r

    plan = []
    filed = rng.random() < .2
    clients = []
    for k in range(rng.choice([1, 2, 3, 4])):
        how = rng.choice(["add", "add", "adds", "serve"])
        u = "http://%s.example/dir%d/doc.json" % (rng.choice(["a", "b"]), k)
        if how != "serve" and filed and rng.random() < .7:
            u = "file:///d%d/doc.json" % k
        if how == "adds":
            D, kn = document(u)
            if not any(x in D for x in ("id", "$id")):
                D[key()] = u
        else:
            D, kn = document(None)
            if rng.random() < .2:
                # known under its own identifier, too
                alias = "http://alias.example/q/%d.json" % k
                D[key()] = alias
                kn = [(absolute(alias, x), v) for x, v in kn] + [(u, kn[0][1])]
        for x, v in kn:
            means[absolute(u, x)] = v
        ids = [absolute(u, x) for x, _ in kn]
        if how == "serve":
            ids = [i for i in ids if i.split("#")[0] == u]
            s.serve(u, D)
            known_now += ids
        plan.append((how, u, D, ids))
        names += ids
    names += ["http://nowhere.example/x.json"] if rng.random() < .2 else []
    todo = [p for p in plan if p[0] != "serve"]
    rng.shuffle(todo)

    def compile_():
        if not names:
            return
        if clients and rng.random() < .25:
            # once more, whether it was accepted or not; or another document under its name
            u, f, n = rng.choice(clients)
            if rng.random() < .3:
                s.add(l, u, leaf())
            else:
                comp.append((s.compile_ref(l, u, "fsref" if filed else "ref"), f, n))
            return
        n = rng.choice(known_now if known_now and rng.random() < .85 else names)
        p = rng.random()
        ncl[0] += 1
        if p < .4:
            c = s.compile_ref(l, n, "fsref" if filed else "ref")
            comp.append((c, lambda x: x, n))
        else:
            C = {"items": {"$ref": n}} if p < .8 else {"$ref": n}
            if p < .8 and rng.random() < .15:
                C["required"] = Num(1)     # never accepted
                C["definitions"] = {"d": leaf()}
            u = "http://client.example/%d" % ncl[0]
            if rng.random() < .5:
                s.add(l, u, C)
            else:
                s.serve(u, C)
            c = s.compile_ref(l, u, "fsref" if filed else "ref")
            comp.append((c, (lambda x: [x]) if p < .8 else (lambda x: x), n))
            clients.append((u,) + comp[-1][1:])

    for _ in range(rng.choice([3, 5, 8, 12])):
        p = rng.random()
        if p < .35 and todo:
            how, u, D, ids = todo.pop()
            known_now += ids
            if how == "add":
                s.add(l, u, D)
            else:
                g = [D]
                while todo and rng.random() < .4 and todo[-1][0] == "adds":
                    known_now += todo[-1][3]
                    g.append(todo.pop()[2])
                s.adds(l, g)
        elif p < .45 and plan:
            # under a name that is already there (or will be fetched from there)
            how, u, D, ids = rng.choice(plan)
            if how == "add" and (how, u, D, ids) not in todo:
                s.add(l, u, rng.choice([D, leaf(), document(None)[0]]))
            elif how == "adds" and (how, u, D, ids) not in todo:
                E = leaf()
                E[idk or ("id" if "id" in D else "$id")] = u
                s.adds(l, [E])
        else:
            compile_()
        for c, f, n in rng.sample(comp, min(2, len(comp))):
            s.validate(c, f(pick(n)))
    for c, f, n in comp:
        for _ in range(3):
            s.validate(c, f(pick(n)))
    s.re = {"": ["cat", []]}
    return s


@prop
def c11(out, rng):
    big = out.tier != "quick"
    hist.histories(out, rng, [f(d, big) for f in (hist.binding, hist.names) for d in ([4, 6, 7, 99] if big else [7])], ("verdict", "fetch"), limit=60000)
    if not big:
        hist.histories(out, rng, [hist.binding(rng.choice([4, 6, 7, 99]), True), hist.names(rng.choice([4, 6, 7, 99]), True)], ("verdict", "fetch"), limit=1500)
    batches(out, rng, amount(out, 5000, 50000), registry_world)


# ------------------------------------------------------------------ C20

def fetch_session(rng):
    dr = rng.choice([4, 6, 7, 99])
    scheme = rng.choice(["http", "http", "https", "file"])
    w = World(rng, dr, {"type": 1, "num": 1, "arr": 2, "obj": 3, "comb": 2, "bool": .2}, ndocs=rng.choice([2, 3, 4, 5, 6]), ntargets=rng.choice([2, 3, 4, 6, 8]), scheme=scheme,
              hows=("add", "adds", "http", "http", "http"), dangling=.03, depth=2)
    s = Session(rng, ["verdict", "fetch", "leak"])
    l = s.new(auto=w.schema_kw or rng.random() < .7, dr=dr if not w.schema_kw else rng.choice([99, dr]))
    fs = scheme == "file"
    docs = [d for d in w.docs if d.how == "http" or (d.how == "root" and d.url)]
    w.setup(s, l, serve=False)
    for d in docs:
        fault = rng.random() < .06
        if fs:
            s.file(d.url[7:], d.root, fail=rng.choice(["dial", "read"]) if fault else None)
        elif fault:
            k = rng.choice(["dial", "read", "status", "junk", "value"])
            if k == "value":
                s.serve(d.url, rng.choice([[], [{}], Num(3), "x", None, True, False]))
            elif k == "status":
                s.serve(d.url, d.root, status=rng.choice([404, 500, 201, 204, 403, 206]), body=rng.choice([None, "", "no"]))
            elif k == "junk":
                s.serve(d.url, Raw(rng.choice(["", "{", "<html>", "nul"])))
            else:
                s.serve(d.url, d.root, fail=k)
        else:
            s.serve(d.url, d.root)
    # documents nobody refers to
    if not fs:
        s.serve("http://unused.example/a.json", {"type": "null"})
    cs = []
    kind = "fsref" if fs else "ref"
    if fs and w.root_kind == "string":
        w.root_kind = "ref"
    first = [None] + [d for d in docs if rng.random() < .4]
    if rng.random() < .5:
        rng.shuffle(first)
    for d in first:
        if d is None:
            if w.root_kind == "string":
                c = s.compile(l, w.docs[0].root)
            else:
                u = w.docs[0].url
                if not u:
                    continue
                c = s.compile_ref(l, u, kind)
            root = w.docs[0].root
        else:
            c = s.compile_ref(l, d.url, kind)
            root = d.root
        cs.append((c, root))
        for x in tries(w.g, root, 1):
            s.validate(c, x)
    for c, root in cs:
        for x in tries(w.g, root, 1):
            s.validate(c, x)
    if rng.random() < .3:
        c = s.compile_ref(l, "http://json-schema.org/draft-0%d/schema" % rng.choice(DRAFTS), kind)
        s.validate(c, {"type": "string"})
        s.meta = True
    s.re = w.g.re
    return s


def two_filesystems(rng):
    """the same file names in two file systems, and one loader"""
    s = Session(rng, ["verdict", "fetch", "leak"])
    l = s.new()
    n = rng.choice([2, 3])
    for w in (0, 1):
        for k in range(4):
            D = {"enum": [Num(10 * w + k)]}
            if rng.random() < .5:
                D = {"items": {"$ref": rng.choice(["f%d.json", "./f%d.json", "/d/f%d.json"]) % rng.randrange(4)}, "type": "array"}
            if rng.random() < .9:
                s.file("/d/f%d.json" % k, D, w=w)
    if rng.random() < .3:
        s.add(l, "file:///d/f0.json", {"enum": [Num(99)]})
    cs = []
    for _ in range(n):
        cs.append(s.compile_ref(l, "file:///d/f%d.json" % rng.randrange(4), "fsref", rng.randrange(2)))
        if rng.random() < .3 and len(cs) == 1:
            cs.append(s.compile(l, {"items": {"$ref": "#/definitions/a"}, "definitions": {"a": {"type": "integer"}}}))
    for c in cs:
        for x in (0, 1, 2, 3, 10, 11, 12, 13):
            s.validate(c, rng.choice([Num(x), [Num(x)], [[Num(x)]]]))
    s.re = {"": ["cat", []]}
    return s


def same_ids(rng):
    """documents at different places that declare the same identifiers: each place is fetched once, the first declaration counts"""
    s = Session(rng, ["verdict", "fetch", "leak"])
    dr = rng.choice([4, 6, 7, 99])
    l = s.new(dr=dr)
    key = "id" if dr in (4, 99) else "$id"
    urls = ["http://h%d.example/d.json" % k for k in range(3)]
    ids = ["http://ids.example/one", "http://ids.example/two", urls[rng.randrange(3)]]
    docs = []
    for k, u in enumerate(urls):
        D = {key: rng.choice(ids[:2]), "enum": [Num(k)], "definitions": {"p": {"enum": [Num(k + 10)]}}}
        if rng.random() < .3:
            del D[key]
        docs.append(D)
        s.serve(u, D)
    known = []
    for k in range(rng.choice([0, 1, 2])):
        D = {key: rng.choice(ids), "enum": [Num(20 + k)]}
        known.append(D[key])
        if rng.random() < .5:
            s.adds(l, [D])
        else:
            s.add(l, rng.choice(["http://added%d.example/" % k, rng.choice(urls)]), D)
    cs = []
    for k in range(rng.choice([2, 3, 4])):
        refs = [rng.choice(urls + known) + rng.choice(["", "", "#", "#/definitions/p"]) for _ in range(rng.choice([1, 2, 3]))]
        u = "http://root.example/%d" % k
        s.add(l, u, {"items": [{"$ref": x} for x in refs]})
        c = s.compile_ref(l, u if rng.random() < .8 else rng.choice(urls), "ref")
        for _ in range(3):
            s.validate(c, rng.choice([[Num(rng.choice([0, 1, 2, 10, 11, 12, 20, 21])) for _ in refs], Num(rng.randrange(3))]))
        cs.append((c, len(refs)))
    for c, n in cs:
        for v in (0, 1, 2, 10, 11, 12, 20, 21):
            s.validate(c, [Num(v)] * n)
    s.re = {"": ["cat", []]}
    return s


@prop
def c20(out, rng):
    big = out.tier != "quick"
    hist.histories(out, rng, [hist.graph(d, big) for d in ([4, 7, 99] if big else [7])] + [hist.files(big)], ("verdict", "fetch", "leak"), limit=50000)
    if not big:
        hist.histories(out, rng, [hist.graph(rng.choice([4, 6, 7, 99]), True), hist.files(True)], ("verdict", "fetch", "leak"), limit=1000)
    batches(out, rng, amount(out, 4500, 45000), lambda r: fetch_session(r) if r.random() < .85 else r.choice([two_filesystems, same_ids])(r))


# ------------------------------------------------------------------ C19

NOTJSON = ["", " ", "\n", "{", "[", "nul", "tru", '{"a":1,}', "[1 2]", "[1,]", "'a'", "{a:1}", "\u0001", "NaN", "+1", ".5", '"abc', '"\\x"', '{"a"}', '{"a":}', "<html></html>", "]", "//", "{\"a\":1", "-", "\ufeff{}"]
INLINE = ["string", "bytes", "reader", "writer", "go", "goraw", "raw", "gotyped"]
TEXTUAL = ["string", "bytes", "reader", "writer", "goraw"]
FILENAMES = ["a b.json", "a+b.json", "é.json", "100%.json", "x#y.json", "q?.json", "plain.json", "日本/ä ö.json", "s p/t+u/v.json", "a%20b.json", "semi;colon.json", "am&p=.json", "deep/er/f.json", "~t.json", "p:q.json"]


def pct(path):
    from urllib.parse import quote
    return quote(path, safe="/+;&=~:-._@")


class Places:
    """puts documents where references can get them"""

    def __init__(self, s, rng):
        self.s, self.r, self.n = s, rng, 0

    def place(self, v):
        """a document somewhere: (url, loader kind, found)"""
        s, r = self.s, self.r
        self.n += 1
        k = r.choice(["http", "http", "file", "file", "os"])
        bad = r.random() < .12 or isinstance(v, Raw)
        if k == "http":
            u = r.choice(["http", "https"]) + "://h%d.example/%s" % (self.n, r.choice(["a.json", "", "x/y.json?q=1", "a%20b.json"]))
            if not bad:
                if r.random() < .15:
                    # moved
                    t = "http://moved.example/%d" % self.n
                    s.serve(u, v)
                    s.http[u] = dict(status=r.choice([301, 302, 307, 308]), body="moved", to=t)
                    s.http[t] = dict(status=200, body=s.text(v))
                else:
                    s.serve(u, v)
                return u, "ref", True
            if isinstance(v, Raw):
                s.serve(u, v)
            else:
                p = r.random()
                if p < .6:
                    s.serve(u, v, status=r.choice([201, 202, 203, 204, 206, 299, 304, 400, 401, 403, 404, 410, 418, 429, 500, 503]), body=r.choice([None, None, "", "[]"]))
                elif p < .9:
                    s.serve(u, v, fail=r.choice(["dial", "read"]))
                else:
                    t = "http://moved.example/%d" % self.n
                    s.serve(u, v, status=302, to=t)
                    s.http[t] = dict(status=404, body=s.text(v))
            return u, "ref", False
        name = r.choice(FILENAMES)
        d = "/d%d/" % self.n if k == "file" else "/@TMP@/d%d/" % self.n
        u = "file://" + pct(d + name)
        s.uris.add(u)
        if bad and not isinstance(v, Raw):
            if k == "file" and r.random() < .6:
                s.file(d + name, v, fail=r.choice(["dial", "read"]), url=u)
            # else: no such file
            elif r.random() < .5:
                s.file(d + name + ".bak", v, url=u + ".bak", os=k == "os")
        else:
            s.file(d + name, v, url=u, os=k == "os")
        return u, "fsref" if k == "file" else "ref", not bad


def loaders_session(rng):
    exact = rng.random() < .5
    dr = rng.choice([4, 6, 7, 99])
    g = Gen(rng, dr, {"type": 1, "num": 3, "str": 1.5, "eq": 2, "uniq": .6, "arr": 1.5, "obj": 2.5, "comb": 1, "bool": .3}, exact15=exact)
    g.re[""] = ["cat", []]
    S = g.schema(2)
    while not isinstance(S, dict):
        S = g.schema(2)
    s = Session(rng, (["errs"] if exact else ["verdict"]) + ["leak"])
    if rng.random() < .03:
        s.pad = rng.choice([4096, 32768, 65536, 70000, 300000])      # white space that makes the texts long
    pl = Places(s, rng)
    cs = []
    if dr != 99 and rng.random() < .4 and "$ref" not in S:
        S["$schema"] = METAURL[dr]
    if rng.random() < .2:
        S.setdefault("definitions", {})["d"] = g.leaf()
        S.setdefault("properties", {})["viaref"] = {"$ref": "#/definitions/d"}
    for _ in range(rng.choice([2, 3, 4])):
        l = s.new(auto=True, dr=dr)
        p = rng.random()
        if p < .55:
            cs.append(s.compile(l, S, rng.choice(INLINE)))
        elif p < .9:
            u, k, ok = pl.place(S)
            cs.append(s.compile_ref(l, u, k))
        elif p < .95:
            s.compile(l, Raw(rng.choice(NOTJSON)), rng.choice(TEXTUAL))
        else:
            u, k, ok = pl.place(Raw(rng.choice(NOTJSON)))
            s.compile_ref(l, u, k)
    xs = g.instances(S, 3)
    for c in cs:
        for x in xs:
            p = rng.random()
            if p < .7:
                s.validate(c, x, rng.choice(INLINE), full=exact)
            elif p < .9:
                u, k, ok = pl.place(x)
                s.validate_ref(c, u, [x] if ok else None, k, full=exact)
            elif p < .95:
                s.validate(c, Raw(rng.choice(NOTJSON)), rng.choice(TEXTUAL), full=exact)
            else:
                u, k, ok = pl.place(Raw(rng.choice(NOTJSON)))
                s.validate_ref(c, u, None, k, full=exact)
    if rng.random() < .4:
        # a document that refers to a neighbour
        n = rng.choice(FILENAMES)
        T = {"allOf": [{"$ref": pct("nb/" + n).replace(":", "%3A")}]}
        os = rng.random() < .5
        b = "/@TMP@/r/" if os else "/r/"
        s.file(b + "main.json", T, os=os)
        s.file(b + "nb/" + n, S, url="file://" + b + pct("nb/" + n).replace(":", "%3A"), os=os)
        c = s.compile_ref(s.new(auto=True, dr=dr), "file://" + b + "main.json", "ref" if os else "fsref")
        for x in xs:
            s.validate(c, x, full=exact)
    s.re = g.re
    return s


@prop
def c19(out, rng):
    batches(out, rng, amount(out, 5000, 50000), loaders_session)


# ------------------------------------------------------------------ C21

HUGE = ["1e1000000000", "-1e1000000000", "1e-1000000000", "1e99999999999999999999", "1e400", "-1E-400", "1e10000", "123456789e-10000", "0e1000000000", "-0", "1e308", "1e309",
        "9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "1" + "0" * 400, "0." + "0" * 400 + "1", "2147483648", "4294967296", "1.0", "1e0", "1.5"]
ODDSTR = ["", "#", "/", "\u0000", "%", "%zz", "a" * 3000, "\ud7ff", "\U0010ffff", "(", "[", "\\", "*", "(?:", "a{1001}", "((((((((((a*)*)*)*)*)*)*)*)*)*", "^$", "http://", "://", "file://", "//", "?", "..", "~", "~2", "true", "null", "1", "-1",
          "http://[::1", "http://h.example:port/", "urn:x:y", "mailto:a@b", "data:,x", "{{.field}}", "{{", "}}", "%s", "%!d", "\n", "$"]
FMTS = ["date", "time", "date-time", "hostname", "email", "idn-email", "ipv4", "ipv6", "uri", "uri-reference", "iri", "iri-reference", "uri-template", "uuid", "regex", "json-pointer", "relative-json-pointer", "", "zzz"]
SCHEMAKW = KWS[:-5] + ["$schema", "default", "examples", "title", "description", "unknown"]


class Junk:
    def __init__(self, rng, refs):
        self.r = rng
        self.bad = rng.choice([0, 0, .02, .2])
        self.refs = refs          # "leaf": pointers to parts without references; "up": "#" where it descends

    def num(self):
        return Num(self.r.choice(HUGE)) if self.r.random() < .4 else Num(self.r.choice([0, 1, 2, 3, -1, 10]))

    def string(self):
        r = self.r
        p = r.random()
        if p < .4:
            return r.choice(ODDSTR)
        if p < .6:
            return r.choice(TYPES)
        if p < .7:
            return r.choice(FMTS)
        return r.choice(NAMES)

    def value(self, d):
        r = self.r
        p = r.random()
        if d <= 0:
            p *= .6
        if p < .08:
            return None
        if p < .2:
            return r.random() < .5
        if p < .38:
            return self.num()
        if p < .6:
            return self.string()
        if p < .75:
            return [self.value(d - 1) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        return {(r.choice(SCHEMAKW + NAMES) if r.random() < .5 else self.string()): self.value(d - 1) for _ in range(r.choice([0, 1, 2, 3]))}

    def schema(self, d, inplace=True):
        """something like a schema, with anything in it"""
        r = self.r
        p = r.random()
        if p < self.bad / 3:
            return self.value(2)
        if p < .1:
            return r.random() < .5
        if d <= 0:
            return {"type": r.choice(TYPES)} if r.random() < .5 else {}
        if self.refs == "up" and not inplace and p < .4:
            return {"$ref": r.choice(["#", "#", ""]) or "#"}
        if self.refs == "leaf" and p < .3:
            return {"$ref": self.ref()}
        o = {}
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            k = r.choice(KWS[:-5])
            if k == "$ref":
                continue
            if r.random() < self.bad:
                o[k] = self.value(2)
            elif k in MAPS:
                o[k] = {r.choice(NAMES + ["$ref", "type"] if k != "patternProperties" else ["", "a", "^b", ".*", "(", "[a-c]+$"]): self.schema(d - 1, inplace and k == "dependencies") if r.random() < .9 else ["a", "b"] for _ in range(r.choice([0, 1, 2]))}
            elif k in LISTS:
                o[k] = [self.schema(d - 1, inplace) for _ in range(r.choice([0, 1, 2, 3]))]
            elif k == "items" and r.random() < .4:
                o[k] = [self.schema(d - 1, False) for _ in range(r.choice([0, 1, 2]))]
            elif k in ONE:
                o[k] = self.schema(d - 1, inplace and k in ("not", "if", "then", "else"))
            elif k == "type":
                o[k] = r.choice(TYPES)
            elif k == "enum":
                o[k] = [self.value(2) for _ in range(r.choice([0, 1, 3]))]
            elif k == "required":
                o[k] = [r.choice(NAMES) for _ in range(r.choice([0, 1, 2]))]
            elif k == "const":
                o[k] = self.value(2)
            elif k == "pattern":
                o[k] = r.choice(["a", "^[ab]*$", "(a|b)*c", "\\d+", "."] + (rx.BAD if self.bad else []))
            elif k == "format":
                o[k] = r.choice(FMTS)
            elif k == "uniqueItems":
                o[k] = True
            elif self.bad:
                o[k] = self.num()
            elif k in ("minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"):
                o[k] = self.num()
            elif k == "multipleOf":
                o[k] = Num(r.choice(["2", "0.1", "1e-400", "1e400", "1e-1000000000", "3", "1e1000000000", "7e-3"]))
            else:
                o[k] = Num(r.choice([0, 1, 2, 3, "9223372036854775808", "1.0", "1e400", "1e1000000000"]))
        return o

    def ref(self):
        r = self.r
        if r.random() < .6:
            return "#/definitions/" + r.choice(["leaf", "leaf", "a~1b"])
        return r.choice(["#/junk", "#/junk/0", "#/junk/a", "#/definitions/junk", "#/definitions/junk/0", "#/definitions/none", "#/title", "#/examples/0/a", "#foo", "#/definitions/leaf/", "#/definitions/leaf/type",
                         "#leaf", "http://no.example/x", "file:///no/such/file.json", "x.json", "/x", "?q", "//h.example/x", "urn:uuid:1", "%zz", "http://[::1", "\u0001", "#/definitions/junk/00", "#/definitions/junk/-1",
                         "#/definitions/junk/99999999999999999999", "#/~2", "#/%", "#/definitions/a%2Fb", "http://json-schema.org/draft-07/schema#/definitions/nonNegativeInteger", "http://json-schema.org/draft-04/schema"])

    def spoil(self, S):
        """puts something else in one place that is not a reference"""
        places = []

        def walk(v):
            for k in (list(v) if isinstance(v, dict) else range(len(v))):
                if k != "$ref":
                    places.append((v, k))
                    if isinstance(v[k], (dict, list)):
                        walk(v[k])
        walk(S)
        if places:
            v, k = self.r.choice(places)
            x = noref(self.value(1))
            if isinstance(v[k], list) and self.r.random() < .5:
                v[k].insert(self.r.randint(0, len(v[k])), x)
            else:
                v[k] = x

    def root(self):
        r = self.r
        S = self.schema(r.choice([2, 3, 4]))
        if isinstance(S, dict):
            if r.random() < .4:
                o = r.choice(list(objects(S)))
                if "$ref" not in o:
                    k = r.choice(KWS[:-5])
                    o[k] = noref(badoperand(r, Gen(r, 7), k, o))
            if r.random() < .4:
                for _ in range(r.choice([1, 1, 2])):
                    self.spoil(S)
            self.strip(S)
            if self.refs == "leaf":
                leafgen = Junk(r, None)
                S["definitions"] = {"leaf": leafgen.schema(1), "a/b": {}}
                (S["definitions"] if r.random() < self.bad else S)["junk"] = noref(leafgen.value(2))
                if r.random() < self.bad:
                    S["definitions"] = noref(leafgen.value(2))
                S["examples"] = [{"a": {"type": "integer"}}, Num(1)]
                if r.random() < .3:
                    S["title"] = "t"
            p = r.random()
            if p < .4:
                S["$schema"] = r.choice(list(METAURL.values()))
            elif p < .4 + self.bad:
                S["$schema"] = self.value(1)
            if r.random() < self.bad:
                S[r.choice(["id", "$id"])] = self.value(1)
        return S

    def strip(self, v):
        """junk must not contain references by accident"""
        return v


def noref(v):
    if isinstance(v, dict):
        return {k: noref(x) for k, x in v.items() if k not in ("$ref",)}
    if isinstance(v, list):
        return [noref(x) for x in v]
    return v


def crash_session(rng):
    j = Junk(rng, rng.choice(["leaf", "up", None]))
    s = Session(rng, [])
    s.judge = "calls"
    p = rng.random()
    l = s.new(auto=rng.random() < .7, vali=rng.random() < .3, dr=rng.choice([4, 6, 7, 99]))
    if p < .8:
        S = j.root()
    elif p < .9:
        # deep
        S = {"type": "object"}
        for _ in range(rng.choice([50, 500, 2000])):
            k = rng.choice(["not", "items", "additionalProperties", "properties", "allOf", "if"])
            S = {k: {"a": S} if k == "properties" else [S] if k == "allOf" else S}
    else:
        S = {"items": {"$ref": "#"}, "additionalProperties": {"$ref": "#"}, "maximum": Num(5)}
    how = rng.random()
    if how < .8:
        c = s.compile(l, S, rng.choice(["string", "raw", "go"]))
    else:
        s.add(l, "http://x.example/a.json", S)
        c = s.compile_ref(l, "http://x.example/a.json" + rng.choice(["", "", "", "#", "#", "#/definitions/leaf", "#/none", "#none"]))
    g = Gen(rng, 7)
    for _ in range(4):
        q = rng.random()
        if q < .1:
            x = Num(1)
            for _ in range(rng.choice([100, 1000, 5000])):
                x = [x] if rng.random() < .5 else {"a": x}
        elif q < .5:
            x = tries(g, S, 1)[0]
        else:
            x = j.value(3)
        s.validate(c, x, rng.choice(["string", "raw", "go"]), full=True)
    return s


@prop
def c21(out, rng):
    batches(out, rng, amount(out, 12000, 150000), crash_session, size=6000)

    def large(r):
        s = r.choice([scale.crowded, scale.crowded, scale.alternatives, scale.arrays, scale.objects, scale.nested, scale.chain, scale.equal])(r, ("errs",))
        s.judge = "calls"
        return s
    batches(out, rng, amount(out, 300, 3000), large)
