"""Graphs of documents that refer to each other"""
from gen import Gen
from jsonv import Num
from session import METAURL
import uri as U

DEFNAMES = ["a", "b", "node", "list", "x-y", "a/b", "a~b", "~1", "a%b", "%25", "a b", "é", "日本", "type", "enum", "const",
            "properties", "items", "definitions", "id", "$id", "0", "1", "q?", "a#b", "a\"b", "a.b", "A", "default", "patternProperties",
            "dependencies", "$ref", "allOf", "not", "required", "+", "a&b=c"]
KWNAMES = ["enum", "const", "properties", "definitions", "dependencies", "patternProperties", "$ref", "id", "$id", "$schema", "items", "allOf",
           "not", "default", "additionalProperties"]
CONFUSING = [["a", "A", "b", "B", "node", "Node", "NODE", "é", "É"],
             ["", "/", "a", "a/", "/a", "a/b", "b", " ", "a ", " a"],
             ["~", "~0", "~1", "~01", "~00", "/", "~~", "a~1b", "a/b", "a~b", "~01b"],
             ["%61", "a", "%2561", "%2F", "/", "%7E1", "~1", "%", "%25", "+", " ", "%20"],
             ["0", "1", "00", "01", "-", "-1", "1e0", "10", "2"],
             ["#", "a#", "#a", "a#b", "?", "a?b", "&", "a:b", "//a", "..", ".", "a/../b"]]
SAFE = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;=:@/")


class Ref(dict):
    """a reference object; goal: the Target it stands for"""

    def __init__(self, goal):
        super().__init__({"$ref": None})
        self.goal = goal

    @property
    def target(self):
        return lambda: self.goal.schema if self.goal else {}


class Target:
    def __init__(self, rank):
        self.rank = rank
        self.schema = None
        self.doc = None        # document
        self.toks = None       # pointer tokens from the document's root
        self.names = []        # absolute URIs (known everywhere once the document is)
        self.ids = []          # [(absolute uri of a resource, tokens below it)]


class Doc:
    def __init__(self, url):
        self.url = url
        self.root = None
        self.how = None        # root, add, adds, http
        self.declares = []     # absolute ids declared inside


class WorldGen(Gen):
    def __init__(self, rng, dr, weights, **kw):
        super().__init__(rng, dr, weights, **kw)
        self.targets = []
        self.rank = -1
        self.refp = .3
        self.allrefs = []

    def reference(self, depth):
        r = self.r
        if not self.targets or not self.chance(self.refp if depth > 0 else self.refp + .2):
            return None
        c = [t for t in self.targets if not self.inplace or t.rank > self.rank]
        if not c:
            return None
        x = Ref(r.choice(c))
        self.allrefs.append(x)
        return x

    def literal(self):
        """what only looks like a reference or an identifier"""
        r = self.r
        k = r.choice(["$ref", "$ref", "id", "$id"])
        v = r.choice(["#/definitions/a", "a/../x.json", "x.json", "#n1", "#n2", "in1.json", "http://ids.example/e/1.json", "http://h1.example/d1.json", "?", "#", "", "alias1.json"])
        return r.choice([{k: v}, {"a": {k: v}}, [{k: v}], {k: v, "type": "null"}])

    def value(self, depth=2):
        if depth > 0 and self.chance(.08):
            return self.literal()
        return super().value(depth)

    def target_schema(self, t, depth):
        self.rank = t.rank
        self.inplace = True
        S = self.schema(depth)
        if not isinstance(S, dict) and self.chance(.8):
            S = {"type": self.r.choice(["object", "string", "integer"])}
        return S


def enc_token(t, rng):
    out = ""
    for c in t.replace("~", "~0").replace("/", "~1"):
        if c in SAFE and not (rng.random() < .03):
            out += c
        elif ord(c) > 127 and rng.random() < .5:
            out += c
        else:
            out += "".join(("%%%02X" if rng.random() < .7 else "%%%02x") % b for b in c.encode())
    return out


def pointer(toks, rng):
    return "".join("/" + enc_token(t, rng) for t in toks)


def split(u):
    """(scheme, authority, path, query) of an absolute URI without fragment"""
    m = U.RFC.match(u)
    return m.group(1), m.group(2), m.group(3), m.group(4)


URNS = ["urn:doc:%d", "urn:example:a/b:%d", "tag:x.example,2020:%d", "urn:uuid:f81d4fae-7dec-11d0-a765-00a0c91e%04d", "urn:Doc:%d"]


def opaque(u):
    return u.startswith(("urn:", "tag:"))


def resolve(base, ref):
    """RFC 3986 resolution of strings without fragment in ref, for placing references"""
    from urllib.parse import urljoin
    ref = ref.split("#")[0]
    if ref == "":
        return base
    if base == "" or opaque(ref):
        return ref
    return urljoin(base, ref)


def relative(base, url, rng):
    """some reference to url (no fragment) that is valid at base"""
    if base == "":
        return url
    if base == url and rng.random() < .8:
        return ""
    if opaque(base) or opaque(url):
        return url
    bs, ba, bp, bq = split(base)
    s, a, p, q = split(url)
    forms = [url]
    tail = p + ("?" + q if q else "")
    if s == bs:
        if a == ba:
            forms.append(tail)
            bd = bp.split("/")[1:-1]
            ud = p.split("/")[1:]
            k = 0
            while k < len(bd) and k < len(ud) - 1 and bd[k] == ud[k]:
                k += 1
            rel = "/".join([".."] * (len(bd) - k) + ud[k:])
            if rel and ":" not in rel.split("/")[0]:
                forms += [rel + ("?" + q if q else "")] * 3
                if rng.random() < .2:
                    forms.append("./" + rel + ("?" + q if q else ""))
        elif a:
            forms.append("//" + a + tail)
    return rng.choice(forms)


DIRS = ["/", "/s/", "/s/t/", "/s/t/u/", "/v1.0/", "/a%20b/"]


class World:
    """documents with placed targets"""

    def __new__(cls, *a, **kw):
        # worlds with cycles that never descend into the instance are not drawn
        while True:
            w = super().__new__(cls)
            w.draw(*a, **kw)
            if not w.shared and not w.cyclic():
                return w

    def draw(self, rng, dr, weights, ndocs=None, ntargets=None, scheme=None, root_kind=None, schema_kw=None, depth=2,
                 hows=("add", "adds", "http"), dangling=.06, names=DEFNAMES, exact15=False, meta=.05, urns=0):
        self.rng = r = rng
        self.shared = False
        self.dr = dr
        self.g = g = WorldGen(rng, dr, weights, exact15=exact15)
        g.re[""] = ["cat", []]
        self.names = names if names is not DEFNAMES or r.random() < .5 else r.choice([KWNAMES, KWNAMES] + CONFUSING)
        self.idkey = "id" if dr == 4 else "$id" if dr in (6, 7) else None
        self.schema_kw = schema_kw if schema_kw is not None else (dr != 99 and r.random() < .3)
        scheme = scheme or r.choice(["http", "http", "http", "https"])
        self.urns = r.random() < urns       # identifiers that are no locations (nothing is relative to them)
        nt = ntargets if ntargets is not None else r.choice([1, 2, 2, 3, 4, 5, 6])
        nd = ndocs if ndocs is not None else r.choice([1, 1, 1, 2, 2, 3, 4])
        g.targets = [Target(k) for k in range(nt)]
        for t in g.targets:
            t.schema = g.target_schema(t, r.choice([1, depth, depth]))
            t.schema_for_aim = t.schema
        g.rank = -1
        g.inplace = True
        g.refp = .5
        # documents
        self.docs = []
        hosts = [scheme + "://h%d.example" % k for k in (1, 1, 2)] if scheme != "file" else ["file://"]
        for k in range(nd):
            d = Doc(r.choice(hosts) + r.choice(DIRS if scheme != "file" else DIRS[:5]) + "d%d.json" % k + ("?v=%d" % k if r.random() < .1 and scheme != "file" else ""))
            d.how = r.choice(hows)
            if self.urns and d.how in ("add", "adds") and r.random() < .7:
                d.url = r.choice(URNS) % k
            self.docs.append(d)
        root = self.docs[0]
        root.how = "root"
        kind = root_kind or r.choice(["string", "string", "ref", "addref"])
        self.root_kind = kind
        if kind == "ref" and opaque(root.url):
            kind = self.root_kind = "addref"
        if kind == "string":
            root.url = ""
        if kind == "addref":
            root.how = "add"
        # root schema
        S = g.schema(depth)
        while not isinstance(S, dict):
            S = g.schema(depth)
        root.root = S
        rest = list(g.targets)
        r.shuffle(rest)
        for d in self.docs[1:]:
            if rest and r.random() < .6:
                t = rest.pop()
                d.root = t.schema if isinstance(t.schema, dict) else {"allOf": [t.schema]} if dr >= 6 else {}
                t.schema = d.root
                t.doc, t.toks = d, []
            else:
                d.root = {}
        self.n = 0
        for d in self.docs:
            self.declare_root(d)
        for t in rest:
            d = r.choice(self.docs)
            self.place(t, d)
        for d in self.docs:
            if self.schema_kw and isinstance(d.root, dict):
                d.root["$schema"] = METAURL[dr]
        # where is everything
        self.ends = []
        for d in self.docs:
            self.scan(d, d.root, [], d.url, [(d.url, 0)] if d.url else [("", 0)])
        # identifiers only the declaring document may use, unless it is added
        for x in list(g.allrefs):
            if x["$ref"] is None and not hasattr(x, "base"):
                x.clear()            # not in any document
        for x, base, d in self.ends:
            if x.goal is None or (x["$ref"] is not None and (x.base, x.doc) == (base, d)):
                continue
            if x["$ref"] is not None:
                self.shared = True
                continue
            x.base, x.doc = base, d
            f = self.refstring(x.goal, base, d)
            if f is None:
                x.clear()
                x.goal = None
                continue
            x["$ref"] = f
            if r.random() < dangling / max(1, len(self.ends)) * 2:
                x["$ref"] = self.danglingref(x["$ref"], base)

    # ---------------------------------------------------------------- identifiers
    def key(self):
        return self.idkey or self.rng.choice(["id", "$id"])

    def declare_root(self, d):
        r = self.rng
        if "$ref" in d.root:
            return
        if d.how == "adds":
            d.root[self.key()] = d.url
            d.declares.append(d.url)
        elif d.url == "" and r.random() < .3:
            u = "http://root.example/x/root.json" if not self.urns else r.choice(URNS) % 99
            d.root[self.key()] = u
            d.declares.append(u)
        elif d.url and r.random() < .3:
            # its own location, or something else
            if r.random() < .5:
                d.root[self.key()] = relative(d.url, d.url, r) or d.url
            else:
                self.n += 1
                i = r.choice(URNS) % (100 + self.n) if self.urns else r.choice(["alias%d.json" % self.n, "http://alias.example/p/%d.json" % self.n, "../al%d.json" % self.n, "sub/al%d.json" % self.n])
                d.root[self.key()] = i
                d.declares.append(resolve(d.url, i))
        if d.how == "adds" and not any(k in d.root for k in ("id", "$id")):
            d.how = "add"

    def place(self, t, d):
        """puts the schema of a target somewhere into a document"""
        r = self.rng
        S = t.schema
        host, toks = d.root, []
        # possibly inside a placed target
        inner = [x for x in self.g.targets if x.doc is d and x.toks and isinstance(x.schema, dict) and "$ref" not in x.schema and x is not t]
        if inner and r.random() < .3:
            h = r.choice(inner)
            host, toks = h.schema, h.toks
        kinds = ["definitions"] * 5
        if "$ref" not in host:
            kinds += ["stuff"]
            if "allOf" not in host and isinstance(S, (dict, bool)):
                kinds += ["not-used"]
        k = r.choice(kinds)
        if k == "definitions":
            m = host.setdefault("definitions", {})
            c = [n for n in self.names if n not in m] or [n for n in DEFNAMES if n not in m]
            n = r.choice(c[:4] if r.random() < .5 else c)
            t.toks = toks + ["definitions", n]
            if r.random() < .12:
                # in a schema that holds nothing but definitions
                n2 = r.choice(self.names)
                m[n] = {"definitions": {n2: S}}
                t.toks += ["definitions", n2]
            else:
                m[n] = S
        elif k == "stuff":
            m = host.setdefault("stuff", {} if r.random() < .6 else [])
            if isinstance(m, list):
                m.append(S)
                t.toks = toks + ["stuff", str(len(m) - 1)]
            else:
                n = r.choice([x for x in ("p", "q/r", "s~t", "u%", "v w", "w1", "w2", "w3", "w4") if x not in m])
                m[n] = S
                t.toks = toks + ["stuff", n]
        else:
            # a place in a keyword that never applies to the instance
            c = [kw for kw in ("properties", "patternProperties", "dependencies", "items") if kw not in host]
            kw = r.choice(c) if c else "definitions"
            if kw == "items":
                host["items"] = [{}, S]
                host["items"][0] = {}
                t.toks = toks + ["items", "1"]
            elif kw == "dependencies":
                host[kw] = {"never-there": S}
                t.toks = toks + [kw, "never-there"]
            elif kw == "patternProperties":
                n = r.choice(["^zzzz", "^zzzz", "enum", "const", "properties", "dependencies", "id", "$ref", "definitions"])
                self.g.re[n] = ["cat", [["bol"] if c == "^" else ["eol"] if c == "$" else ["chr", ord(c)] for c in n]]
                host[kw] = {n: S}
                t.toks = toks + [kw, n]
            elif kw == "properties":
                host[kw] = {"n/e~v": S}
                t.toks = toks + [kw, "n/e~v"]
            else:
                m = host.setdefault("definitions", {})
                n = "zz%d" % len(m)
                m[n] = S
                t.toks = toks + ["definitions", n]
        t.doc = d
        if isinstance(S, dict) and "$ref" not in S and k == "definitions" and r.random() < .5:
            self.n += 1
            p = r.random()
            if p < .4:
                i = "#n%d" % self.n
            elif self.urns:
                i = r.choice(URNS) % (200 + self.n)
            elif p < .7 and (d.url or d.declares):
                i = r.choice(["in%d.json", "sub/in%d.json", "../in%d.json", "/top/in%d", "in%d/"]) % self.n
            else:
                i = "http://ids.example/e/%d.json" % self.n
            S[self.key()] = i
            t.own = i

    # ---------------------------------------------------------------- positions
    def scan(self, d, v, toks, base, res, schema=True):
        """walks a document: collects references with their base, and the names of targets"""
        if isinstance(v, list):
            for k, x in enumerate(v):
                self.scan(d, x, toks + [str(k)], base, res, schema)
            return
        if not isinstance(v, dict):
            return
        if schema:
            for k in (["id"] if self.dr == 4 else ["$id"] if self.dr in (6, 7) else ["id", "$id"]):
                if isinstance(v.get(k), str):
                    i = v[k]
                    nb = resolve(base, i)
                    if "#" in i and i.split("#")[1]:
                        for t in self.g.targets:
                            if t.schema is v:
                                t.names.append((nb, i.split("#")[1], d))
                    if nb != base or i == nb:
                        res = res + [(nb, len(toks))]
                    base = nb
                    break
            if isinstance(v, Ref):
                v.base = None
                self.ends.append((v, base, d))
        for t in self.g.targets:
            if t.schema is v and t.doc is d:
                t.ids = [(u, toks[n:], d) for u, n in res]
        for k, x in v.items():
            if schema and k in ("enum", "const"):
                continue
            ismap = schema and k in ("properties", "dependencies", "patternProperties", "definitions")
            self.scan(d, x, toks + [k], base, res, not ismap)

    def refstring(self, t, base, d):
        r = self.rng
        c = []
        for u, toks, dd in t.ids:
            if u == "" and base != "" and dd is d:
                continue
            if dd is d or u == dd.url or dd.how in ("add", "adds"):
                if u == "" and dd is not d:
                    continue
                c.append((u, pointer(toks, r) if toks else r.choice(["", "", "#"])))
        for u, n, dd in t.names:
            if dd is d or dd.how in ("add", "adds") or u == dd.url:
                if u == "" and (dd is not d or base != ""):
                    continue
                c += [(u, n)] * 2
        if not c:
            return None
        u, f = r.choice(c)
        rel = relative(base, u, r)
        if f == "#":
            return rel + "#"
        if f == "":
            return rel or "#"
        return rel + "#" + f

    def danglingref(self, ref, base):
        r = self.rng
        p = r.random()
        if p < .4:
            return ref.split("#")[0] + "#/definitions/no-such-thing"
        if p < .6:
            return ref.split("#")[0] + "#nosuchname"
        if p < .7:
            return "http://h1.example/missing.json"
        if p < .8 and "#/" in ref:
            return ref.split("#")[1]
        return ref + ("/x" if "#/" in ref else "#/9")

    def cyclic(self):
        """is there a cycle of references that never descends into the instance?"""
        state = {}

        def succ(v):
            if isinstance(v, Ref) and v.goal is not None:
                return [v.goal.schema]
            out = []
            for k in ("allOf", "anyOf", "oneOf"):
                if isinstance(v.get(k), list):
                    out += v[k]
            for k in ("not", "if", "then", "else"):
                if k in v:
                    out.append(v[k])
            if isinstance(v.get("dependencies"), dict):
                out += v["dependencies"].values()
            return out

        def go(v):
            if not isinstance(v, dict):
                return False
            if state.get(id(v)) == 1:
                return True
            if state.get(id(v)) == 2:
                return False
            state[id(v)] = 1
            if any(go(x) for x in succ(v)):
                return True
            state[id(v)] = 2
            return False
        return any(go(x) for x in [d.root for d in self.docs] + [t.schema for t in self.g.targets] + self.g.allrefs)

    # ---------------------------------------------------------------- sessions
    def setup(self, s, l, serve=True):
        """adds and serves the documents"""
        r = self.rng
        ds = [d for d in self.docs if d.how in ("add", "adds")]
        r.shuffle(ds)
        group = []
        for d in ds:
            if d.how == "add":
                s.add(l, d.url, d.root)
            else:
                group.append(d)
                if r.random() < .6:
                    s.adds(l, [x.root for x in group])
                    group = []
        if group:
            s.adds(l, [x.root for x in group])
        for d in self.docs:
            if serve and (d.how == "http" or (d.how == "root" and d.url)):
                s.serve(d.url, d.root)

    def compile(self, s, l):
        d = self.docs[0]
        if self.root_kind == "string":
            return s.compile(l, d.root)
        return s.compile_ref(l, d.url + self.rng.choice(["", "", "#"]))
