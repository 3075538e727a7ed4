"""Sessions at scale: strings, arrays, objects, lists of alternatives and nestings that are far larger than those of the other
generators, with the interesting part anywhere in them.  Judged like every other session."""
from jsonv import Num
from session import Session

SIZES = [60, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 513, 1000, 1023, 1024, 1025, 2000]


def N(x):
    return Num(str(x))


def draft(r):
    return r.choice([4, 6, 7, 99])


def session(r, dr, S, xs, asp=("verdict",), re=None):
    s = Session(r, list(asp))
    full = "errs" in asp
    l = s.new(auto=r.random() < .7, dr=dr)
    c = s.compile(l, S)
    for x in xs:
        s.validate(c, x, full=full)
    s.re = {"": ["cat", []]}
    s.re.update(re or {})
    return s


def around(r, n):
    return max(0, n + r.choice([-1, 0, 0, 1]))


def strings(r, huge=False):
    n = r.choice([4095, 4096, 4097, 10000]) if not huge else r.choice([32768, 65535, 65536, 65537])
    S = {r.choice(["minLength", "maxLength"]): N(n)} if r.random() < .7 else {"minLength": N(n), "maxLength": N(n + r.choice([0, 1, 5]))}
    chars = r.choice(["a", "é", "ab", "日a", "\U0001F600", "a\U0001F600é", "\n", "a\u0301", "\u0000"])

    def word(k):
        w = (chars * (k // len(chars) + 1))[:k]
        if k and r.random() < .5:
            i = r.randrange(k)
            w = w[:i] + r.choice("aé日\U0001F600\u0000") + w[i + 1:]
        return w
    ks = [n, n - 1, n + 1] if not huge else r.sample([n - 1, n, n + 1], 2)
    return session(r, draft(r), S, [word(k) for k in ks])


def element(r):
    """a schema, values that satisfy it, values that do not"""
    return r.choice([
        ({"type": "integer"}, [N(1), N("2.0"), N(-7)], [N("0.5"), "a", None, [], {}, True]),
        ({"maximum": N(5)}, [N(1), N(5), "x", None, [N(9)]], [N("5.5"), N(6), N("1e3")]),
        ({"enum": ["a", N(1), None]}, ["a", N("1.0"), None], ["b", N(2), False, [], ""]),
        ({"maxLength": N(2)}, ["", "ab", "日本", N(123), None], ["abc", "日本é"]),
        ({"not": {"type": "string"}}, [N(1), None, [], {}], ["", "a"]),
        ({"required": ["k"]}, [{"k": None}, N(1), [], "k"], [{}, {"K": N(1)}]),
        ({"anyOf": [{"type": "null"}, {"minimum": N(3)}]}, [None, N(3), "s", []], [N(2), N("2.5")])])


def spread(r, n, good, bad, nbad=None):
    xs = [r.choice(good) for _ in range(n)]
    k = nbad if nbad is not None else r.choice([0, 1, 1, 1, 2, 3])
    for _ in range(min(k, n)):
        xs[r.choice([0, n - 1, n // 2, r.randrange(n), r.randrange(n)])] = r.choice(bad)
    return xs


def arrays(r, asp=("verdict",)):
    n = r.choice(SIZES[:12] if "errs" in asp else SIZES)
    dr = draft(r)
    e, good, bad = element(r)
    f, fgood, fbad = element(r)
    k = r.choice(["items", "list", "list+", "contains", "limits", "unique"])
    if k == "contains" and dr == 4:
        k = "items"
    if k == "items":
        return session(r, dr, {"items": e}, [spread(r, n, good, bad) for _ in range(4)], asp)
    if k in ("list", "list+"):
        m = r.choice([1, 2, 5, 10, 11, 30, 60, n - 1, n, n + 1])
        S = {"items": [e] * m}
        if k == "list+":
            S["additionalItems"] = r.choice([f, f, True, False])
        xs = []
        for _ in range(4):
            q = r.choice([0, 1, m - 1, m, m, m + 1, n])
            xs.append(spread(r, min(q, m), good, bad, r.choice([0, 0, 1])) + spread(r, max(0, q - m), fgood, fbad, r.choice([0, 0, 1])))
        return session(r, dr, S, xs, asp)
    if k == "contains":
        xs = [[r.choice(bad) for _ in range(n)] for _ in range(4)]
        for x in xs[:3]:
            x[r.choice([0, n - 1, n // 2, r.randrange(n)])] = r.choice(good)
        if "errs" in asp:
            xs = xs[2:]
        return session(r, dr, {"contains": e}, xs, asp)
    if k == "limits":
        S = r.choice([{"minItems": N(n)}, {"maxItems": N(n)}, {"minItems": N(n), "maxItems": N(n)}])
        return session(r, dr, S, [[r.choice([N(1), None, "a", []])] * around(r, n) for _ in range(4)], asp)
    n = min(n, 300)
    xs = []
    for _ in range(4):
        vs = [r.choice([N(i), str(i), [N(i)], {"a": N(i)}, {str(i): None}, [N(i), N(i)]]) for i in range(n)]
        r.shuffle(vs)
        if r.random() < .7:
            i, j = r.sample(range(n), 2)
            vs[i] = vs[j]
        xs.append(vs)
    return session(r, dr, {"uniqueItems": True}, xs, asp)


RES = {"^k1": ["cat", [["bol"], ["chr", 107], ["chr", 49]]], "7$": ["cat", [["chr", 55], ["eol"]]], "9": ["chr", 57]}


def objects(r, asp=("verdict",)):
    n = r.choice(SIZES[:8] if "errs" in asp else SIZES[:15])
    dr = draft(r)
    e, good, bad = element(r)
    f, fgood, fbad = element(r)
    names = ["k%d" % i for i in range(n)]

    def obj(ns, good=good, bad=bad, nbad=None):
        ns = list(ns)
        r.shuffle(ns)
        return dict(zip(ns, spread(r, len(ns), good, bad, nbad)))
    k = r.choice(["properties", "pattern", "additional", "required", "dependencies", "names", "limits"])
    if k == "names" and dr == 4:
        k = "additional"
    if k == "properties":
        ps = r.sample(names, max(1, n // r.choice([1, 2, 10])))
        S = {"properties": {p: r.choice([e, e, {}]) for p in ps}}
        if r.random() < .5:
            S["additionalProperties"] = r.choice([f, False])
        xs = []
        for _ in range(3):
            x = obj(ps)
            x.update(obj([p for p in names if p not in x][:r.choice([0, 0, 1, 5, n])], fgood, fbad))
            xs.append(x)
        return session(r, dr, S, xs, asp)
    if k == "pattern":
        S = {"patternProperties": {p: r.choice([e, e, {}]) for p in r.sample(sorted(RES), r.choice([1, 2, 3]))}}
        if r.random() < .6:
            S["additionalProperties"] = r.choice([f, False])
        return session(r, dr, S, [obj(names, good + fgood, bad + fbad) for _ in range(3)], asp, RES)
    if k == "additional":
        return session(r, dr, {"additionalProperties": e}, [obj(names) for _ in range(3)], asp)
    if k == "required":
        xs = []
        for _ in range(4):
            ns = list(names)
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                ns.pop(r.randrange(len(ns)))
            xs.append({p: None for p in ns + r.choice([[], ["other"]])})
        rq = list(names)
        r.shuffle(rq)
        return session(r, dr, {"required": rq}, xs, asp)
    if k == "dependencies":
        S = {"dependencies": {"x%d" % i: r.choice([["y%d" % i], ["y%d" % i, "z"], {"required": ["y%d" % i]}, {"maxProperties": N(n)}]) for i in range(n // 2)}}
        xs = []
        for _ in range(3):
            x = {"z": N(1)}
            for i in range(n // 2):
                if r.random() < .5:
                    x["x%d" % i] = None
                    x["y%d" % i] = None
            for i in r.sample(range(n // 2), r.choice([0, 0, 1, 2])):
                x["x%d" % i] = N(i)
                x.pop("y%d" % i, None)
            if r.random() < .1:
                x.pop("z")
            xs.append(x)
        return session(r, dr, S, xs, asp)
    if k == "names":
        m = len(names[-1])
        S = {"propertyNames": r.choice([{"maxLength": N(m)}, {"maxLength": N(m - 1)}, {"not": {"enum": [r.choice(names)]}}, {"minLength": N(2)}])}
        return session(r, dr, S, [{p: None for p in r.sample(names, n - i) + r.choice([[], ["k"], ["kkkkkkkkkk"]])} for i in (0, 1, 2)], asp)
    S = r.choice([{"minProperties": N(n)}, {"maxProperties": N(n)}, {"minProperties": N(n), "maxProperties": N(n)}])
    return session(r, dr, S, [{"k%d" % i: None for i in range(around(r, n))} for _ in range(4)], asp)


def equal(r, asp=("verdict",)):
    """long enumerations, large values"""
    n = r.choice([10, 20, 50, 100, 255, 256, 257, 400])

    def val(i):
        return r.choice([N(i), N("%d.5" % i), str(i), "v%d" % i, [N(i)], {"a": N(i)}, {str(i): True}, [[str(i)], N(i)]])
    vs = [val(i) for i in range(n)]
    dr = draft(r)
    if r.random() < .7 or dr == 4:
        xs = [vs[0], vs[-1], r.choice(vs), r.choice(vs), val(n), val(n + 1)]
        xs += [Num(str(i) + r.choice([".0", "e0"])) for i in (0, n - 1, n)]
        return session(r, dr, {"enum": vs}, xs, asp)
    o = {"k%d" % i: v for i, v in enumerate(vs)}
    a = list(vs)
    V = r.choice([o, a, {"a": [o]}])
    xs = [V]
    for _ in range(3):
        p, b = dict(o), list(a)
        i = r.choice([0, n - 1, r.randrange(n)])
        if r.random() < .4:
            items = list(p.items())
            r.shuffle(items)
            p = dict(items)
        if r.random() < .7:
            p["k%d" % i] = val(n + 7)
            b[i] = val(n + 7)
        if r.random() < .2:
            p["extra"] = None
            b.append(None)
        if r.random() < .2:
            p.pop("k0")
            b.pop()
        xs.append(p if V is o else b if V is a else {"a": [p]})
    return session(r, dr, {"const": V}, xs, asp)


def alternatives(r, asp=("verdict",)):
    """many subschemas in one combinator"""
    n = r.choice([8, 9, 16, 17, 31, 33, 64, 65, 100, 130, 200] if "errs" not in asp else [8, 9, 16, 17, 31, 33, 64])
    k = r.choice(["anyOf", "oneOf", "allOf", "anyOf", "oneOf"])
    dr = draft(r)
    m = r.choice([0, 1, n - 1, n // 2, r.randrange(n)])
    if k == "allOf":
        S = {"allOf": [{"not": {"enum": [N(i)]}} for i in range(n)]}
        xs = [N(i) for i in (0, m, n - 1, n)] + [N("0.5")]
    else:
        alts = [{"enum": [N(i)]} for i in range(n)]
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            i, j = r.randrange(n), r.randrange(n)
            alts[i] = {"enum": list({N(i), N(j)})} if i != j else alts[i]
        if r.random() < .4:
            alts = [r.choice([a, {"type": "number", **a}, {"allOf": [a]}, {"minimum": a["enum"][0], "maximum": a["enum"][0]}]) for a in alts]
        S = {k: alts}
        xs = [N(i) for i in (0, m, n - 1, n)] + ["s", N("%d.0" % m)]
    return session(r, dr, S, xs, asp)


def nested(r, asp=("verdict",)):
    """instances that are nested deeply, under a schema that refers to itself"""
    d = r.choice([30, 50, 64, 65, 100, 101, 115] if "errs" not in asp else [20, 30, 50, 64])      # (the reader of traces goes 255 deep)
    dr = draft(r)
    e, good, bad = element(r)
    leaf = {"not": {"type": ["object", "array"]}}
    form = r.choice(["properties", "items", "additional", "pattern", "list", "mixed", "mutual", "alternatives"])
    if form == "mixed":
        d = min(d, 55)
    ref = {"$ref": "#"}
    rec = {"properties": {"properties": {"c": ref, "v": e}}, "items": {"items": {"$ref": "#/definitions/t"}}, "additional": {"additionalProperties": {"$ref": "#/definitions/t"}},
           "pattern": {"patternProperties": {"": {"$ref": "#/definitions/t"}}}, "list": {"items": [e, ref], "additionalItems": False},
           "mixed": {"properties": {"c": {"items": ref}, "v": e}}, "mutual": {"properties": {"c": {"$ref": "#/definitions/u"}, "v": e}},
           "alternatives": {"anyOf": [leaf, {"properties": {"c": ref, "v": e}, "required": ["c"]}]}}[form]
    S = dict(rec)
    S["definitions"] = {"t": {"anyOf": [{"allOf": [leaf, e]}, {"type": ["object", "array"], "allOf": [ref]}]}, "u": {"properties": {"c": ref, "v": e}}}
    xs = []
    for _ in range(4):
        b = r.choice([None, 0, d - 1, d // 2, r.randrange(d)])
        x = r.choice(good if form not in ("items", "additional", "pattern") or b is None else bad)
        if isinstance(x, (list, dict)):
            x = N(1) if form not in ("items", "additional", "pattern") else "leaf"
        for i in range(d):
            v = r.choice(bad if i == b else good)
            if form in ("properties", "mutual", "alternatives"):
                x = {"c": x, "v": v}
            elif form == "items":
                x = [x]
            elif form in ("additional", "pattern"):
                x = {"abc"[i % 3]: x}
            elif form == "list":
                x = [v, x]
            else:
                x = {"c": [x], "v": v}
        xs.append(x)
    return session(r, dr, S, xs, asp)


def chain(r, asp=("verdict",)):
    """long chains of references"""
    n = r.choice([30, 64, 100, 129, 200])
    dr = draft(r)
    e, good, bad = element(r)
    ds = {"d%d" % i: {"$ref": "#/definitions/d%d" % (i + 1)} for i in range(n)}
    ds["d%d" % n] = e
    if r.random() < .5:
        i = r.randrange(n)
        ds["d%d" % i] = {"allOf": [ds["d%d" % i]]}
    return session(r, dr, {"definitions": ds, "$ref": "#/definitions/d0"} if r.random() < .5 else {"definitions": ds, "items": {"$ref": "#/definitions/d0"}},
                   [r.choice(good), r.choice(bad), [r.choice(good)], [r.choice(good), r.choice(bad)]], asp)


def crowded(r, asp=("verdict",)):
    """alternatives that fail in very many ways"""
    n = r.choice([15, 25, 45, 60, 90])
    dr = draft(r)

    def alt(k):
        p = r.random()
        m = max(1, n - r.choice([0, 0, 1, 2, 5]))
        if p < .4:
            return {"required": ["%s%d" % (k, i) for i in range(m)]}
        if p < .6:
            return {"items": {"type": r.choice(["string", "null"])}, "maxItems": N(r.choice([0, n]))}
        if p < .8:
            return {"additionalProperties": r.choice([False, {"type": "string"}])}
        return {"allOf": [{"enum": [str(i)]} for i in range(m)]}
    k = r.choice(["anyOf", "oneOf"] + (["contains"] if dr != 4 else []))
    S = {k: [alt(c) for c in "abc"[:r.choice([1, 2, 3])]]} if k != "contains" else {"contains": alt("a")}
    xs = []
    for _ in range(3):
        x = r.choice([{"x%d" % i: N(i) for i in range(n)}, {}, [N(i) for i in range(n)], "s", {"a%d" % i: N(i) for i in range(n // 2)}])
        xs.append(x if k != "contains" else [x, r.choice([{}, [], N(1), x])])
    return session(r, dr, S, xs, asp)


def elements(r, asp=("errs", "lead")):
    """a long array none of whose elements satisfies contains; the closest one is far from the start"""
    n = r.choice([9, 10, 11, 12, 20, 33, 60])
    b = r.choice([n - 1, n - 1, n // 2, 10, r.randrange(n)]) % n
    names = ["a", "b", "c", "d"]
    need = {"type": "object", "required": names, "properties": {m: {"type": "integer"} for m in names}}
    S = {"contains": r.choice([need, {"allOf": [need]}, {"anyOf": [need, {"type": "null"}]}])}
    if r.random() < .3:
        S = {"properties": {"p": S}}
    xs = []
    for _ in range(3):
        x = [r.choice([N(i), "s", {}, {"a": "x"}, {"a": N(1)}]) for i in range(n)]
        x[b] = r.choice([{"a": N(1), "b": N(2), "c": N(3)}, {"a": N(1), "b": N(2), "c": N(3), "d": "x"}, {"d": N(1), "b": N(2)}])
        xs.append({"p": x} if "properties" in S else x)
    return session(r, r.choice([6, 7, 99]), S, xs, asp)


PATHNAMES = ["(root)", "(root)", "(root).a", "a", "a", ".", "", "0", "1", "a.b", "root", "context", "field", "(root)(root)", "a/b", "~", "é", "{{.field}}", "properties", "items", "#"]


def paths(r, asp=("errs",)):
    """errors at the end of paths of odd, equal and repeated names"""
    leaf = lambda: r.choice([{"type": "null"}, {"minimum": N(9)}, {"enum": ["x"]}, {"required": ["(root)", "q"]}, {"not": {}}, {"additionalProperties": False}, {"maxProperties": N(0)}, {"anyOf": [{"type": "null"}, {"properties": {"(root)": {"type": "null"}}}]}])

    def down(d):
        if d == 0:
            return leaf(), r.choice([N(1), "s", {"(root)": N(1)}, {"a": N(1), "b": []}, []])
        same = None
        S, x = down(d - 1)
        p = r.random()
        if p < .2:
            k = r.choice([0, 1, 2])
            T = {"items": S} if r.random() < .5 else {"items": [{}] * k + [S]}
            return T, [N(0)] * k + [x]
        n = r.choice(PATHNAMES)
        if p < .6:
            T = {"properties": {n: S}}
        elif p < .8:
            T = {"additionalProperties": S}
        else:
            T = r.choice([{"allOf": [{"properties": {n: S}}]}, {"dependencies": {n: {"properties": {n: S}}}}, {"anyOf": [{"properties": {n: S}}, False]}])
            if "anyOf" in T:
                T["anyOf"][1] = {"type": "null"}
        x = {n: x}
        if r.random() < .3:
            m = r.choice(PATHNAMES)
            x.setdefault(m, r.choice([N(1), "s"]))
        return T, x
    S, x = down(r.choice([1, 2, 2, 3, 3, 4, 6]))
    return session(r, r.choice([4, 6, 7, 99]), S, [x, x], asp)


def probe(r, asp=("errs", "lead")):
    """measures the score of a failing schema: next to it stand alternatives whose scores are a ladder"""
    from gen import Gen
    dr = r.choice([4, 6, 7, 7, 99, 99])
    W = {"type": 1, "num": .7, "str": .5, "eq": .7, "uniq": .3, "arr": 1.5, "obj": 3, "comb": 2, "bool": .3, "format": .2}
    g = Gen(r, dr, W, exact15=True)
    A = g.schema(2)
    if r.random() < .7:
        # one keyword that applies other schemas, of which at least one fails
        T = lambda: g.schema(1) if r.random() < .5 else r.choice([{"required": ["zz"]}, {"properties": {"m1": {"type": "null"}}}, {"required": ["m1", "m2"], "enum": ["no"]}, {"minProperties": N(1)}, {"type": "object"}, {"maxProperties": N(0), "minProperties": N(50)}])
        new = dr in (7, 99)
        A = r.choice([{"if": T(), "then": T(), "else": T()} if new else {"not": T()}, {"if": T(), "else": T()} if new else {"allOf": [T()]}, {"if": {}, "then": T()} if new else {"oneOf": [T(), T()]},
                      {"allOf": [T(), T()]}, {"anyOf": [T(), T()]}, {"oneOf": [T(), T()]}, {"not": T()}, {"dependencies": {"m1": T(), "m2": ["m3", "zz"]}}, {"properties": {"m1": T(), "m2": T()}},
                      {"patternProperties": {"": T()}}, {"additionalProperties": T()}, {"propertyNames": {"maxLength": N(1)}} if dr != 4 else {"allOf": [T()]},
                      {"properties": {"m3": {"items": T()}}}, {"properties": {"m3": {"items": [T(), T()], "additionalItems": T()}}},
                      {"properties": {"m3": {"contains": {"type": "null"}}}} if dr != 4 else {"items": T()}, {"properties": {"m3": {"uniqueItems": True, "minItems": N(9), "items": [T()]}}}, {"required": ["m1", "zz", "m2", "yy"]}])
        if r.random() < .4:
            A = dict(A, required=["m1", "m2", "zz"][r.randint(0, 2):])
    many = r.random() < .15        # far more violations than satisfied checks
    if many:
        A = r.choice([{"required": ["z%d" % i for i in range(r.randint(8, 24))]}, {"additionalProperties": False, "required": ["z%d" % i for i in range(r.randint(2, 14))]}])
    g.re[""] = ["cat", []]
    xs = []
    for _ in range(2):
        x = {"m%d" % i: r.choice([N(i), "s", None, []]) for i in range(1, 10)}
        x["m3"] = r.choice([[N(1), N(1)], ["s", {}, []], [], {"a": N(1)}])
        v = g.value(2)
        if isinstance(v, dict) and r.random() < .5:
            x.update(v)
        xs.append(x)
    P = {}
    for i in range(12):
        L = {"required": ["m%d" % j for j in range(1, 1 + r.randint(0, 9))], "enum": ["no"]}
        if not L["required"]:
            del L["required"]
        a = r.choice([0, 0, 1, 2, 3, 5])
        if a:
            L["allOf"] = [{}] * a
        for _ in range(r.choice([0, 0, 0, 1, 2, 4]) if not many else r.randint(8, 24)):
            L.setdefault("required", []).append("n%d" % len(L.get("required", [])))
        alts = [{"$ref": "#/definitions/a"}, L]
        if r.random() < .3:
            alts.reverse()
        P["p%d" % i] = {r.choice(["anyOf", "oneOf"]): alts}
    return session(r, dr, {"definitions": {"a": A}, "properties": P}, [{p: x for p in P} for x in xs], asp, g.re)


def crowd(r, asp=("errs", "pure")):
    """many alternatives with equal scores, tried again and again in any order"""
    n = r.choice([3, 5, 6, 8, 12])
    k = r.choice(["anyOf", "oneOf", "oneOf", "allOf"])
    alts = [r.choice([{"enum": [N(i)]}, {"properties": {"t": {"enum": [N(i)]}, "u": {"type": "string"}}, "required": ["t"]}, {"type": "integer", "multipleOf": N(i + 2)}]) for i in range(n)]
    if r.random() < .4:
        alts[r.randrange(n)] = {"anyOf": [{"enum": ["q%d" % i]} for i in range(5)]}
    xs = [N(i) for i in range(n)] + [{"t": N(i), "u": r.choice(["", N(0)])} for i in range(n)] + ["q%d" % i for i in range(6)] + [N(-1), {"t": N(-1)}, None]
    s = Session(r, list(asp))
    l = s.new(dr=r.choice([4, 6, 7, 99]))
    c = s.compile(l, {k: alts} if r.random() < .7 else {"items": {k: alts}})
    bad = [N(-1), {"t": N(-1)}, None]
    seq = r.choice(bad), r.choice(bad)
    items = "items" in s.docs[-1] if s.docs and isinstance(s.docs[-1], dict) else False
    for _ in range(r.choice([5, 8])):
        for x in (r.choice(xs), seq[0], r.choice(xs), seq[1]):
            s.validate(c, [x] if items else x, full=True, kind=r.choice(["string", "raw", "go"]))
    s.reread()
    s.re = {"": ["cat", []]}
    return s
