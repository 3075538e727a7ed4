"""The checks: what each property generates"""
import random

import hist
import mc
import run
import scale
import vocab
from driver import conform
from gen import Gen, NAMES, ODD_NAMES, TYPES
from jsonv import Num
from session import Session, Raw, METAURL

PROPS = {}


def prop(f):
    PROPS[f.__name__.upper()] = f
    return f


def drs(out):
    return [7] if out.tier == "quick" else [4, 6, 7, 99]


def amount(out, quick, thorough):
    return quick if out.tier == "quick" else thorough


def batches(out, rng, n, make, size=2500, deadline=None):
    """conformance of n sessions, in batches that fit memory"""
    if out.violations:
        return
    exe = run.build()
    deadline = deadline or (420 if out.tier == "quick" else 3000)
    done = 0
    while done < n and not out.violations:
        k = min(size, n - done)
        conform(out, [make(rng) for _ in range(k)], exe)
        done += k
        if out.elapsed() > deadline:
            out.extra["stopped_at_deadline"] = True
            break


def loader(s, rng, dr, schema):
    """a loader under which the schema is interpreted by draft dr; may add $schema"""
    p = rng.random()
    if dr != 99 and p < .4 and isinstance(schema, dict) and "$ref" not in schema:
        schema["$schema"] = METAURL[dr]
        return s.new(auto=True, dr=rng.choice([99, 4, 6, 7]))
    return s.new(auto=rng.random() < .7, dr=dr)


def wrap(rng, dr, S, xs):
    """put a schema under some other keyword, and the instances accordingly"""
    p = rng.random()
    k = rng.choice(["properties", "items", "itemsList", "allOf", "not not", "additionalProperties", "definitions", "patternProperties"])
    if p < .6:
        return S, xs
    if k == "properties":
        n = rng.choice(NAMES)
        return {"properties": {n: S}}, [{n: x} for x in xs]
    if k == "items":
        return {"items": S}, [[x] for x in xs]
    if k == "itemsList":
        return {"items": [{}, S]}, [[None, x] for x in xs]
    if k == "allOf":
        return {"allOf": [S]}, xs
    if k == "not not":
        return {"not": {"not": S}}, xs
    if k == "additionalProperties":
        return {"additionalProperties": S}, [{"k": x, "l": x} for x in xs]
    if k == "definitions":
        return {"definitions": {"s": S}, "$ref": "#/definitions/s"}, xs
    return {"patternProperties": {"": S}}, [{"k": x} for x in xs]


def share(rng, S):
    """the same schema, some of whose parts are definitions that are referred to, also more than once"""
    import copy
    S = copy.deepcopy(S)
    defs = {}
    for _ in range(rng.choice([1, 1, 2, 3])):
        at = [(c, k) for c, k in places(S) if isinstance(c[k], dict) and "$ref" not in c[k]]
        if not at:
            break
        c, k = rng.choice(at)
        n = "sh%d" % len(defs)
        defs[n] = c[k]
        c[k] = {"$ref": "#/definitions/" + n}
        if isinstance(c, list) and rng.random() < .5:
            # the same alternative again
            c.insert(rng.randint(0, len(c)), {"$ref": "#/definitions/" + n})
        if rng.random() < .3:
            e, j = rng.choice(at)
            if e is not c and not inside(defs[n], e):
                e[j] = {"$ref": "#/definitions/" + n}
    if defs:
        S["definitions"] = dict(S.get("definitions", {}), **defs)
    return S


def inside(S, c):
    """is c a part of S, or does S refer to anything?"""
    return c is S or any(x is c or x[k] is c or (isinstance(x[k], dict) and "$ref" in x[k]) for x, k in places(S))


def places(S):
    """all places of subschemas: container and key"""
    out = []
    if isinstance(S, dict):
        for k, x in S.items():
            if k in ("properties", "patternProperties", "dependencies") and isinstance(x, dict):
                for n in x:
                    out.append((x, n))
                    out += places(x[n])
            elif k in ("allOf", "anyOf", "oneOf", "items") and isinstance(x, list):
                for i in range(len(x)):
                    out.append((x, i))
                    out += places(x[i])
            elif k in ("not", "if", "then", "else", "contains", "propertyNames", "additionalItems", "additionalProperties", "items"):
                out.append((S, k))
                out += places(x)
    return out


def verdict_session(rng, weights, depth=3, n=8, odd=.15, big=.06, drs=(4, 6, 7, 99), prep=None, maxkw=4, kinds=("string",), wraps=True):
    dr = rng.choice(drs)
    g = Gen(rng, dr, weights, odd=odd, big=big, maxkw=maxkw)
    g.re[""] = ["cat", []]
    S = g.schema(depth)
    while not isinstance(S, dict):
        S = g.schema(depth)
    if prep:
        S = prep(g, S)
    xs = g.instances(S, n)
    if wraps and depth <= 1:
        S, xs = wrap(rng, dr, S, xs)
    if rng.random() < .15:
        S = share(rng, S)
    s = Session(rng, ["verdict"])
    if dr == 99 and rng.random() < .4:
        c = s.new_schema(S)
        for x in xs:
            if rng.random() < .3:
                s.validate_both(c, S, x)
            else:
                s.validate(c, x, kind=rng.choice(kinds))
    else:
        l = loader(s, rng, dr, S)
        c = s.compile(l, S)
        for x in xs:
            s.validate(c, x, kind=rng.choice(kinds))
    s.re = g.re
    return s


# ------------------------------------------------------------------ C01 - C06

@prop
def c01(out, rng):
    mc.small(out, [vocab.scalar([4, 6, 7, 99]), vocab.limits([4, 6, 7, 99])])
    w = {"type": 1.2, "num": 6}
    batches(out, rng, amount(out, 6000, 60000), lambda r: verdict_session(r, w, depth=1, n=10, maxkw=5))


@prop
def c02(out, rng):
    mc.small(out, [vocab.strings(drs(out))])
    w = {"str": 6, "type": .3}

    def make(r):
        s = verdict_session(r, w, depth=1, n=10, big=.12)
        return s
    batches(out, rng, amount(out, 5000, 50000), make)
    batches(out, rng, amount(out, 40, 400), scale.strings)
    batches(out, rng, amount(out, 6, 40), lambda r: scale.strings(r, huge=True))


@prop
def c03(out, rng):
    mc.small(out, [vocab.equality(drs(out)), vocab.pairs()])
    w = {"eq": 4, "uniq": 3, "type": .2}
    batches(out, rng, amount(out, 6000, 60000), lambda r: verdict_session(r, w, depth=1, n=9, big=.12))
    batches(out, rng, amount(out, 100, 1000), lambda r: r.choice([scale.equal, scale.arrays])(r))


@prop
def c04(out, rng):
    mc.small(out, [vocab.arrays(drs(out), out.tier != "quick")])
    w = {"arr": 8, "type": .6, "num": .4, "uniq": .3, "str": .3, "bool": .8}
    batches(out, rng, amount(out, 6000, 60000), lambda r: verdict_session(r, w, depth=r.choice([2, 2, 3]), n=8, big=.12))
    batches(out, rng, amount(out, 150, 1500), scale.arrays)


@prop
def c05(out, rng):
    mc.small(out, [vocab.objects(drs(out), out.tier != "quick")])
    w = {"obj": 8, "type": .6, "num": .4, "str": .3, "bool": .8}
    batches(out, rng, amount(out, 6000, 60000), lambda r: verdict_session(r, w, depth=r.choice([2, 2, 3]), n=8, odd=.25, big=.08))
    batches(out, rng, amount(out, 150, 1500), scale.objects)


@prop
def c06(out, rng):
    mc.small(out, [vocab.combinators([4, 6, 7, 99], out.tier != "quick")])
    w = {"comb": 6, "cond": 3, "type": 1, "num": 1, "str": .5, "obj": .6, "arr": .4, "bool": 1.5}

    def deep(g, S):
        r = g.r
        if r.random() < .15:
            for _ in range(r.choice([5, 10, 20, 40])):
                k = r.choice(["not", "allOf", "anyOf", "oneOf", "then", "else"])
                if k == "not":
                    S = {"not": S}
                elif k in ("allOf", "anyOf", "oneOf"):
                    S = {k: [S] + ([{"not": {}}] if k != "allOf" and r.random() < .3 else [{}] if k == "allOf" and r.random() < .3 else [])}
                elif g.dr >= 7:
                    S = {"if": {}, "then": S} if k == "then" else {"if": {"not": {}}, "else": S}
        return S
    batches(out, rng, amount(out, 5000, 50000), lambda r: verdict_session(r, w, depth=r.choice([2, 3, 4]), n=8, big=.08, prep=deep))
    batches(out, rng, amount(out, 100, 1000), lambda r: r.choice([scale.alternatives, scale.alternatives, scale.nested])(r))


# ------------------------------------------------------------------ C12 - C15

ALL = {"type": 1, "num": 2, "str": 2, "eq": 1.5, "uniq": .8, "arr": 3, "obj": 4, "comb": 2.5, "cond": 1, "bool": .8, "format": .5}


def report_session(rng, weights, depth, n, asp=("errs",), prep=None, odd=.15, big=.05):
    dr = rng.choice([4, 6, 7, 99])
    g = Gen(rng, dr, weights, odd=odd, big=big, exact15=True)
    g.re[""] = ["cat", []]
    S = g.schema(depth)
    while not isinstance(S, dict):
        S = g.schema(depth)
    if prep:
        S = prep(g, S)
    xs = g.instances(S, n)
    if rng.random() < .15:
        S = share(rng, S)
    s = Session(rng, asp)
    both = dr == 99 and rng.random() < .3
    c = s.new_schema(S) if both else s.compile(loader(s, rng, dr, S), S)
    for x in xs:
        if both and rng.random() < .3:
            s.validate_both(c, S, x, full=True)
        else:
            s.validate(c, x, full=True)
    s.re = g.re
    return s


@prop
def c12(out, rng):
    big = out.tier != "quick"
    mc.reports(out, rng, [vocab.objects(drs(out), big), vocab.arrays(drs(out), big), vocab.combinators(drs(out), big), vocab.scalar(drs(out)), vocab.strings(drs(out))], 20 if big else 5, limit=40000 if big else 3500)
    mc.reports(out, rng, [vocab.limits([4, 6, 7, 99])], 20 if big else 4, limit=40000 if big else 900)
    batches(out, rng, amount(out, 5000, 50000), lambda r: report_session(r, ALL, r.choice([1, 2, 3, 3]), 7))
    batches(out, rng, amount(out, 200, 2000), lambda r: r.choice([scale.arrays, scale.objects, scale.nested, scale.equal, scale.elements, scale.paths, scale.paths])(r, ("errs",)))


@prop
def c13(out, rng):
    big = out.tier != "quick"
    mc.reports(out, rng, [vocab.alternatives(drs(out), big)], 40 if big else 8, passes=0, limit=40000 if big else 2500, asp=("errs", "lead"))
    w = {"type": 1, "num": 1.5, "str": 1, "eq": .8, "obj": 4, "arr": 1, "comb": 2, "bool": .3}

    def prep(g, S):
        r = g.r
        k = r.choice(["anyOf", "oneOf", "anyOf", "oneOf", "contains"])
        if k == "contains" and g.dr < 6:
            k = "anyOf"
        alts = [S] + [g.schema(r.choice([1, 2, 2])) for _ in range(r.choice([1, 1, 2, 3, 5]) if r.random() < .9 else 11)]
        if r.random() < .3:
            # alternatives that share a part, so that scores differ by little
            base = alts[0] if isinstance(alts[0], dict) else {}
            alts = [dict(base, **(a if isinstance(a, dict) and r.random() < .8 else {})) if isinstance(a, dict) else a for a in alts]
            for a in alts:
                if isinstance(a, dict):
                    fix(a)
        T = {k: alts if k != "contains" else S}
        p = r.random()
        if p < .2:
            T = {"properties": {g.name(): T}}
        elif p < .3 and k != "contains":
            T = {r.choice(["anyOf", "oneOf"]): [T, g.schema(1), {k: alts[::-1]}]}
        elif p < .4:
            T = dict(g.schema(1) if False else {}, **T)
        return T
    batches(out, rng, amount(out, 4500, 45000), lambda r: report_session(r, w, 2, 8, asp=("errs", "lead"), prep=prep))
    batches(out, rng, amount(out, 60, 600), lambda r: r.choice([scale.alternatives, scale.crowded, scale.elements])(r, ("errs", "lead")))
    batches(out, rng, amount(out, 700, 7000), scale.probe)


def fix(m):
    """makes the limits of a merged schema object consistent"""
    for a, b in (("minLength", "maxLength"), ("minProperties", "maxProperties")):
        if a in m and b in m and int(m[a].lex) > int(m[b].lex):
            m[a] = m[b]
    for a, b in (("exclusiveMinimum", "minimum"), ("exclusiveMaximum", "maximum")):
        if isinstance(m.get(a), bool) and b not in m:
            m[b] = Num(1)


METHODS = {"False": [], "Required": ["property"], "InvalidType": ["expected", "given"], "NumberAnyOf": [], "NumberOneOf": [],
           "NumberAllOf": [], "NumberNot": [], "MissingDependency": ["dependency"], "Const": ["allowed"], "Enum": ["allowed"],
           "ArrayNoAdditionalItems": [], "ArrayMinItems": ["min"], "ArrayMaxItems": ["max"], "Unique": ["type", "i", "j"],
           "ArrayContains": [], "ArrayMinProperties": ["min"], "ArrayMaxProperties": ["max"],
           "AdditionalPropertyNotAllowed": ["property"], "InvalidPropertyName": ["property"], "StringGTE": ["min"],
           "StringLTE": ["max"], "DoesNotMatchPattern": ["pattern"], "DoesNotMatchFormat": ["format"], "MultipleOf": ["multiple"],
           "NumberGTE": ["min"], "NumberGT": ["min"], "NumberLTE": ["max"], "NumberLT": ["max"], "ConditionThen": [],
           "ConditionElse": [], "ErrorFormat": ["description", "value"]}


def template(rng, name, vars_, funcs, more=("field", "context")):
    """a template in the syntax of text/template"""
    t = ""
    vs = vars_ + list(more)
    for v in rng.sample(vs, rng.randint(0, len(vs))):
        t += rng.choice(["", " ", "x=", "é:", "% ", "%s", "\n", "\"", name + " "])
        if funcs and rng.random() < .4:
            t += rng.choice(["{{wrap .%s}}", "{{.%s | wrap}}"]) % v
        else:
            t += rng.choice(["{{.%s}}", "{{.%s}}", "{{ .%s }}"]) % v
    return t + rng.choice(["", ".", " " + name, "}"])


class PlainGen(Gen):
    def name(self):
        if self.chance(.1):
            return self.r.choice(["(root)", "(root).a", "a.(root)", ".", "a.b", "{{.field}}", "%s", "field", "$"])
        return super().name()

    CH = [c for c in Gen.CH if c not in "<>&\u2028\ufffd\uffff\u0000"]

    def ch(self):
        return self.r.choice(self.CH)


def message_session(rng):
    dr = rng.choice([4, 6, 7, 99])
    g = PlainGen(rng, dr, ALL, odd=.1, big=.02)
    g.re[""] = ["cat", []]
    s = Session(rng, ["msg"])
    kinds = rng.choice([["default"], ["custom"], ["default", "custom"], ["custom", "custom", "default"]])
    l = s.new(dr=dr)
    S = {"type": "object"}
    if rng.random() < .7:
        S = g.schema(3)
        while not isinstance(S, dict):
            S = g.schema(3)
    else:
        # every error type at once
        S = {"allOf": [g.schema(1) for _ in range(12)]}
    c = s.compile(l, S)
    for k in kinds:
        funcs = rng.random() < .5
        if k == "custom":
            loc = {m: template(rng, m, vs, funcs) for m, vs in METHODS.items() if rng.random() < .9}
            if funcs:
                s.skip(op="funcs", funcs=True)
            s.skip(op="locale", locale=loc)
        else:
            s.skip(op="locale")
        tp = s.templates()
        last = None
        for x in g.instances(S, 4):
            if "<" in repr(x) or "&" in repr(x) or ">" in repr(x) or "\\u2028" in repr(x):
                continue
            last = s.validate(c, x, full=True)
            s.ops[-1][1]["tp"] = tp
            if rng.random() < .3:
                added_error(s, rng, g, last, tp, funcs and k == "custom")
    s.re = g.re
    return s


def added_error(s, rng, g, r, tp, funcs):
    from session import tokens
    det = {k: rng.choice(["v", "", "é", "a b", "{{.x}}"]) for k in rng.sample(["a", "b", "property", "field", "context", "min"], rng.randint(0, 4))}
    own = {k: rng.choice(["w", "z"]) for k in rng.sample(["a", "q", "own"], rng.randint(1, 2))}
    nowhere = rng.random() < .1      # an error without context
    f = template(rng, "Custom", sorted(det), funcs, more=() if "context" in det or nowhere else ("context",))
    if rng.random() < .08:
        f = ""
    path = [] if nowhere else ["(root)"] + [rng.choice(["a", "0", "x.y", ""]) for _ in range(rng.randint(0, 3))]
    v = g.value(1)
    while any(c in repr(v) for c in "<>&"):
        v = g.value(1)
    from jsonv import dumps, enc
    t = rng.choice(["custom", "my error", "required", ""])
    s.op(dict(op="adderror", r=r, type=t, path=path, value=json_of(v), fmt=f, det=det, own=own, **({"desc": "before"} if rng.random() < .3 else {})),
         dict(op="adderror", t=t, p=path[1:], v=enc(v), own=own, given=det or {"": ""}, tpl=tokens(f), tp=tp, **({"nowhere": True} if nowhere else {})))


def json_of(v):
    import json
    from jsonv import dumps
    return RawJSON(dumps(v))


class RawJSON(str):
    pass


@prop
def c14(out, rng):
    batches(out, rng, amount(out, 3500, 35000), message_session)


def purity_session(rng):
    dr = rng.choice([4, 6, 7, 99])
    g = Gen(rng, dr, ALL, exact15=True)
    g.re[""] = ["cat", []]
    s = Session(rng, ["errs", "pure"])
    l = s.new(dr=dr)
    cs = []
    for _ in range(rng.choice([1, 1, 2])):
        S = g.schema(rng.choice([2, 3]))
        while not isinstance(S, dict):
            S = g.schema(2)
        if not cs:
            c = s.compile(l, S)
        else:
            c = s.compile(s.new(dr=dr), S)
        cs.append((c, S, g.instances(S, 4)))
    for _ in range(rng.choice([6, 8, 12, 20])):
        c, S, xs = rng.choice(cs)
        x = rng.choice(xs)
        if rng.random() < .2:
            x = g.mutate(x)
        if rng.random() < .15:
            x = g.vary(x)
        s.validate(c, x, full=True, kind=rng.choice(["string", "raw", "raw", "go", "bytes"]))
        if rng.random() < .1:
            s.reread()
    s.reread()
    s.re = g.re
    return s


@prop
def c15(out, rng):
    batches(out, rng, amount(out, 3000, 30000), purity_session)
    batches(out, rng, amount(out, 300, 3000), scale.crowd)


# ------------------------------------------------------------------ C17

BUILTIN = ["date", "time", "date-time", "hostname", "email", "idn-email", "ipv4", "ipv6", "uri", "uri-reference", "iri", "iri-reference", "uri-template", "uuid", "regex",
           "json-pointer", "relative-json-pointer"]
FNAMES = ["date", "ipv4", "uuid", "even", "myformat", "über", "json-pointer", "Date", "type", " ", "a b"]


def checker(rng, g):
    import json
    from jsonv import dumps, enc
    k = rng.choice(["const", "const", "types", "maxlen", "eq", "num", "std"])
    if k == "const":
        b = rng.random() < .5
        return ("const", RawJSON("true" if b else "false"), b)
    if k == "types":
        ts = rng.sample(TYPES, rng.randint(1, 4))
        return ("types", RawJSON(json.dumps(ts)), ts)
    if k == "maxlen":
        n = rng.randint(0, 4)
        return ("maxlen", RawJSON(str(n)), n)
    if k == "eq":
        v = g.value(1)
        return ("eq", RawJSON(dumps(v)), enc(v))
    if k == "num":
        v = Num(rng.randint(-3, 9))
        return ("num", RawJSON('"%s"' % v.lex), v.enc())
    f = rng.choice(["date", "ipv4", "uuid", "json-pointer", "ipv6", "hostname"])
    return ("std", f, None)


def registry_session(rng):
    g = Gen(rng, 7, {"type": 1, "num": 1, "obj": 3, "arr": 2, "comb": 2, "format": 6}, odd=.05)
    g.re[""] = ["cat", []]
    names = rng.sample(FNAMES, rng.choice([1, 2, 3]))
    others = rng.sample(BUILTIN, 2) if rng.random() < .2 else []       # only added, removed and queried
    g.formats = names
    root = rng.random() < .4
    s = Session(rng, ["verdict"] + (["seen"] if root else []))
    cs = []
    sample = ["2020-01-01", "2020-13-01", "1.2.3.4", "a@b.c", "/a/b", "~", "::1", "x" * 3, "01234567-89ab-cdef-0123-456789abcdef"]

    def inst(S):
        if rng.random() < .5 and root:
            return rng.choice(sample) if rng.random() < .5 else g.value(1)
        x = g.aim(S, 4)
        return x

    def compile_():
        if root:
            S = {"format": rng.choice(names)}
            if rng.random() < .2:
                S["title"] = "t"
        else:
            S = g.schema(2)
            while not isinstance(S, dict):
                S = g.schema(2)
        cs.append((s.compile(s.new(dr=rng.choice([4, 6, 7, 99]) if root else 7), S), S))
    compile_()
    for _ in range(rng.choice([6, 10, 15, 25])):
        p = rng.random()
        n = rng.choice(names + (others if p < .4 else []))
        if p < .2:
            s.fadd(n, checker(rng, g))
        elif p < .3:
            s.fdel(n)
        elif p < .4:
            s.fhas(n if rng.random() < .7 else rng.choice(FNAMES))
        elif p < .5:
            compile_()
        elif p < .6:
            v = rng.choice(sample) if rng.random() < .5 else g.value(1)
            s.op(dict(op="fis", name=n, src=s.src(v)), dict(op="fis", name=n, v=__import__("jsonv").enc(v)))
        else:
            c, S = rng.choice(cs)
            x = inst(S)
            s.validate(c, x, kind=rng.choice(["string", "raw", "bytes"]))
    for n in BUILTIN if rng.random() < .2 else rng.sample(BUILTIN + FNAMES, 4):
        s.fhas(n)
    s.re = g.re
    return s


@prop
def c17(out, rng):
    hist.histories(out, rng, [hist.formats(out.tier != "quick")], ("verdict",), limit=2000 if out.tier == "quick" else 40000)
    batches(out, rng, amount(out, 4000, 40000), registry_session)


# ------------------------------------------------------------------ C07

from worlds import World, Ref  # noqa: E402

WW = {"type": 1, "num": 1, "str": .5, "eq": .7, "arr": 2, "obj": 3, "comb": 2, "cond": .4, "bool": .3}


def ref_session(rng, asp=("verdict",), n=6, **kw):
    dr = rng.choice([4, 6, 7, 99])
    w = World(rng, dr, WW, urns=.15, **kw)
    s = Session(rng, asp)
    l = s.new(auto=w.schema_kw or rng.random() < .7, dr=dr if not w.schema_kw else rng.choice([99, dr]))
    w.setup(s, l)
    c = w.compile(s, l)
    for x in w.g.instances(w.docs[0].root, n):
        s.validate(c, x)
    s.re = w.g.re
    return s


@prop
def c07(out, rng):
    batches(out, rng, amount(out, 5000, 50000), ref_session)
    batches(out, rng, amount(out, 120, 1200), lambda r: r.choice([scale.nested, scale.nested, scale.chain])(r))
