"""Sessions: sequences of API calls, as given to the harness and to the specification"""
import json
import os
import re
import jsonv
import uri
from jsonv import Num, dumps

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
METAURL = {4: "http://json-schema.org/draft-04/schema#", 6: "http://json-schema.org/draft-06/schema#",
           7: "http://json-schema.org/draft-07/schema#"}
META = {d: jsonv.parse(open(os.path.join(SPEC, "meta", "draft%d.json" % d)).read()) for d in (4, 6, 7)}
URIKEYS = ("$ref", "id", "$id", "$schema")


def urikeys(v, acc):
    if isinstance(v, list):
        for x in v:
            urikeys(x, acc)
    elif isinstance(v, dict):
        for k, x in v.items():
            if k in URIKEYS and isinstance(x, str):
                acc.add(x)
            urikeys(x, acc)
    return acc


META_URIS = set()
for _m in META.values():
    urikeys(_m, META_URIS)
META_TABLE = {u: uri.parse(u) for u in META_URIS | set(METAURL.values())}


enc = jsonv.enc


class Session:
    def __init__(self, rng, asp, meta=False):
        self.rng = rng
        self.asp = list(asp)
        self.ops = []          # (harness op, spec op, kind)
        self.http = {}
        self.files = {}
        self.os = {}
        self.world = []
        self.world2 = []       # what a second file system has instead
        self.re = {}
        self.docs = []
        self.uris = set()
        self.nl = self.ns = self.nr = 0
        self.meta = meta       # the strings of the metaschemas matter
        self.note = None
        self.judge = "trace"
        self.id = 0

    # ------------------------------------------------------------ calls
    def enc(self, v):
        return ["z"] if self.judge == "calls" else enc(v)

    def op(self, h, s):
        self.ops.append((h, s))
        return len(self.ops)

    def new(self, auto=True, vali=False, dr=99):
        self.nl += 1
        default = auto and not vali and dr == 99 and self.rng and self.rng.random() < .5
        self.op(dict(op="newdefault") if default else dict(op="new", auto=auto, vali=vali, dr=dr), dict(op="new", auto=auto, vali=vali, dr=dr))
        return self.nl

    def new_schema(self, v, kind="string"):
        """NewSchema: as if with a loader of its own"""
        self.nl += 1
        self.op(dict(op="newdefault"), dict(op="new", auto=True, vali=False, dr=99))
        c = self.compile(self.nl, v, kind)
        self.ops[-1][0]["l"] = 0
        return c

    def validate_both(self, c, S, v, full=False):
        """the function Validate of schema S, which new_schema has compiled as c, and a document"""
        r = self.validate(c, v, full=full)
        h, o = self.ops[-1]
        self.ops[-1] = (dict(h, op="validate2", srcs=[dict(k="string", t=self.text(S))]), o)
        return r

    def opts(self, l, auto=True, vali=False, dr=99):
        self.op(dict(op="opts", l=l, auto=auto, vali=vali, dr=dr), dict(op="opts", l=l, auto=auto, vali=vali, dr=dr))

    pad = 0

    def text(self, v):
        t = dumps(v, self.rng, self.rng.random() < .3)
        if self.pad and t[:1] in "[{":
            t = t[0] + self.rng.choice(" \n\t") * self.pad + t[1:]
        return t

    def src(self, v, kind="string"):
        if isinstance(v, Raw):
            return dict(k=kind, t=v.text)
        if self.judge != "calls":
            self.docs.append(v)
        return dict(k=kind, t=self.text(v))

    def add(self, l, url, v, kind="string"):
        self.uris.add(url)
        s = dict(op="add", l=l, u=url)
        if isinstance(v, Raw):
            s["bad"] = True
        else:
            s["v"] = self.enc(v)
        return self.op(dict(op="add", l=l, u=url, src=self.src(v, kind)), s)

    def adds(self, l, vs, kind="string"):
        return self.op(dict(op="adds", l=l, srcs=[self.src(v, kind) for v in vs]), dict(op="adds", l=l, vs=[self.enc(v) for v in vs]))

    def compile(self, l, v, kind="string"):
        self.ns += 1
        s = dict(op="compile", l=l)
        if isinstance(v, Raw):
            s["bad"] = True
        else:
            s["v"] = self.enc(v)
        self.op(dict(op="compile", l=l, src=self.src(v, kind)), s)
        return self.ns

    def compile_ref(self, l, url, kind="ref", w=0):
        self.ns += 1
        self.uris.add(url)
        self.op(dict(op="compile", l=l, src=dict(k=kind, u=url, **({"w": w} if w else {}))), dict(op="compile", l=l, u=url, **({"w": w} if w else {})))
        return self.ns

    def validate(self, s, v, kind="string", full=False):
        self.nr += 1
        o = dict(op="validate", s=s)
        if isinstance(v, Raw):
            o["bad"] = True
        else:
            o["v"] = self.enc(v)
        self.op(dict(op="validate", s=s, src=self.src(v, kind), full=full), o)
        return self.nr

    def validate_ref(self, s, url, v, kind="ref", full=False):
        """v: the document at the URL; None if there is none"""
        self.nr += 1
        o = dict(op="validate", s=s)
        if v is None:
            o["bad"] = True
        else:
            o["v"] = self.enc(v[0])
        self.op(dict(op="validate", s=s, src=dict(k=kind, u=url), full=full), o)
        return self.nr

    def fadd(self, name, ck):
        """ck: (kind, argument as given to the harness, argument for the specification)"""
        k, a, b = ck
        if k == "std":
            self.op(dict(op="fstd", name=name, u=a), dict(op="fadd", name=name, ck=["std", a]))
        else:
            self.op(dict(op="fadd", name=name, ck=dict(k=k, a=a)), dict(op="fadd", name=name, ck=[k, b]))

    def fdel(self, name):
        self.op(dict(op="fdel", name=name), dict(op="fdel", name=name))

    def fhas(self, name):
        self.op(dict(op="fhas", name=name), dict(op="fhas", name=name))

    def flang(self, name, strs):
        self.docs += strs
        self.op(dict(op="fbulk", name=name, strs=strs), dict(op="flang", name=name, strs=strs))

    def serve(self, url, v, status=200, fail=None, to=None, body=None):
        """a document at an http URL"""
        ok = status == 200 and fail is None and to is None and not isinstance(v, Raw)
        self.uris.add(url)
        if isinstance(v, Raw):
            body = v.text
        else:
            self.docs.append(v)
            body = self.text(v) if body is None else body
        self.http[url] = dict(status=status, body=body, **({"fail": fail} if fail else {}), **({"to": to} if to else {}))
        self.world.append(dict(at=uri.base_of(url), k="doc" if ok else "fault", v=self.enc(v) if ok else ["z"]))

    def file(self, path, v, fail=None, url=None, w=0, os=False):
        """a document in a stub file system (or the real one)"""
        ok = fail is None and not isinstance(v, Raw)
        if not isinstance(v, Raw):
            self.docs.append(v)
        d = dict(status=200, body=v.text if isinstance(v, Raw) else self.text(v), **({"fail": fail} if fail else {}))
        if os:
            self.os[path] = d
        else:
            self.files[("%d:" % w if w else "") + path] = d
        (self.world2 if w else self.world).append(dict(at=uri.base_of(url or "file://" + path), k="doc" if ok else "fault", v=self.enc(v) if ok else ["z"]))

    # messages
    def templates(self):
        """records the templates of the locale in force; returns their number"""
        self.ntp = getattr(self, "ntp", 0) + 1
        self.op(dict(op="templates"), dict(op="templates", tp=self.ntp))
        return self.ntp

    def skip(self, **h):
        self.op(h, dict(op="skip"))

    def reread(self):
        self.op(dict(op="reread"), dict(op="reread"))

    # ------------------------------------------------------------ output
    def harness(self):
        d = dict(id=self.id, ops=[unraw(o[0]) for o in self.ops])
        if self.http:
            d["http"] = self.http
        if self.files:
            d["files"] = self.files
        if self.os:
            d["os"] = self.os
        return d

    def trace(self, obs):
        """the session with its observations, for module Trace"""
        if self.judge == "calls":
            return dict(id=self.id, asp=self.asp, ops=[dict(op="call", ret="panic" if o.get("panic") else "result" if o["ok"] else "error") for o in obs])
        ops = []
        failed = set()
        nc = 0
        tpl = {}
        for nop, ((h, s), o) in enumerate(zip(self.ops, obs)):
            s = dict(s)
            k = s["op"]
            if k == "compile":
                nc += 1
                if not o["ok"]:
                    failed.add(nc)
            if k in ("validate",) and s["s"] in failed:
                if h["op"] != "validate2":
                    continue
                s["bad"] = True
            if k in ("add", "adds", "compile"):
                s["ok"] = o["ok"]
                s["got"] = [uri.base_of(g) for g in o.get("got") or []]
                s["leak"] = o["opened"] - o["closed"]
            elif k == "validate":
                s["ok"] = o["ok"]
                s["valid"] = o["valid"]
                s["n"] = o["n"]
                s["got"] = [uri.base_of(g) for g in o.get("got") or []]
                s["leak"] = o["opened"] - o["closed"]
                s["mut"] = bool(o.get("mut"))
                s["seen"] = [x.split("|", 1) for x in o.get("seen") or []]
                s["canon"] = o.get("canon", "")
                if h.get("full"):
                    s["errs"] = [error(e) for e in o.get("errs") or []]
                if "msg" in self.asp:
                    s["msgs"] = [message(e) for e in o.get("errs") or []]
            elif k == "flang":
                s["r"] = list(o.get("bits", ""))
            elif k in ("fhas", "fis"):
                s["r"] = o["r"]
            elif k == "reread":
                s["same"] = o["same"]
            elif k == "templates":
                s = dict(op="skip")
                tpl[self.ops[nop][1]["tp"]] = {m: tokens(t) for m, t in o["templates"].items() if tokens(t) is not None}
            elif k == "adderror":
                s.update(ok=o["ok"], same=o["same"], valid=o["valid"])
                e = o["errs"][0] if o.get("errs") else None
                if e is None:
                    s["ok"] = False
                    s["m"] = dict(t="", p=[], v=["z"], det={"": ""}, desc="", str="", vs="")
                else:
                    s["m"] = dict(message(e), v=enc(jsonv.parse(e["v"])))
            ops.append(s)
        strs = set()
        for d in self.docs:
            jsonv.strings(d, strs)
        us = set(self.uris)
        for d in self.docs:
            urikeys(d, us)
        table = dict(META_TABLE) if self.meta or any("json-schema.org" in u for u in us) else {"": uri.parse("")}
        for u in us:
            table[u] = uri.parse(u)
        return dict(id=self.id, asp=self.asp, str={t: [ord(c) for c in t] for t in strs},
                    re=self.re or {"": ["cat", []]}, uri=table, world=self.world, world2=self.world2, ops=ops,
                    **({"tpl": [tpl[k] for k in sorted(tpl)]} if tpl else {}))


def unraw(h):
    """embedded JSON text is passed on as text in a string field"""
    return {k: (unraw(v) if isinstance(v, dict) else str(v) if type(v).__name__ == "RawJSON" else v) for k, v in h.items()}


class Raw:
    """text that is not JSON"""

    def __init__(self, text):
        self.text = text


NUMD = {"min", "max", "multiple", "i", "j"}
DOCUMENTED = {
    "required": ["property"], "invalid_type": ["expected", "given"], "missing_dependency": ["dependency"],
    "const": ["allowed"], "enum": ["allowed"], "format": ["format"], "multiple_of": ["multiple"],
    "number_lte": ["max"], "number_lt": ["max"], "number_gte": ["min"], "number_gt": ["min"],
    "string_gte": ["min"], "string_lte": ["max"], "pattern": ["pattern"],
    "unique": ["type", "i", "j"], "array_min_items": ["min"], "array_max_items": ["max"],
    "array_min_properties": ["min"], "array_max_properties": ["max"],
    "additional_property_not_allowed": ["property"], "invalid_property_name": ["property"],
    "invalid_property_pattern": ["property", "pattern"],
}


def error(e):
    """an observed error in the form of module Report; details that the error type does not
    document are not compared"""
    d = {}
    for k in DOCUMENTED.get(e["t"], []):
        x = e["det"].get(k)
        if x is None:
            d[k] = "missing"
        elif k in NUMD:
            try:
                d[k] = Num(canon(x["v"])).enc()
            except AssertionError:
                d[k] = "not a number: " + x["v"]
        elif k == "allowed":
            try:
                vs = jsonv.parse("[" + x["v"] + "]")
                d[k] = [enc(v) for v in vs]
            except ValueError:
                d[k] = ["unparsable " + x["v"]]
        else:
            d[k] = x["v"]
    return dict(t=e["t"], p=(e["p"] or [""])[1:], v=enc(jsonv.parse(e["v"])), d=d, f=e["f"], c=e["c"])


def message(e):
    return dict(t=e["t"], p=(e["p"] or [""])[1:], det={k: x["s"] for k, x in e["det"].items()} or {"": ""},
                desc=e["d"], str=e["s"], vs=e["v"])


VAR = re.compile(r"\{\{\s*(?:\.(\w+)|wrap \.(\w+)|\.(\w+) \| wrap)\s*\}\}")


def tokens(t):
    """the tokens of a template; None if it uses more than variables and the function wrap"""
    out = []
    pos = 0
    for m in VAR.finditer(t):
        if m.start() > pos:
            out.append(["lit", t[pos:m.start()]])
        a, b, c = m.groups()
        out.append(["var", a] if a else ["fn", b or c])
        pos = m.end()
    if pos < len(t):
        out.append(["lit", t[pos:]])
    if any(x[0] == "lit" and ("{{" in x[1] or "}}" in x[1]) for x in out):
        return None
    return out


def canon(s):
    s = s.strip()
    if s.startswith("+"):
        s = s[1:]
    if s.startswith("."):
        s = "0" + s
    return s.replace("e+", "e")
