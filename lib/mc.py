"""Exhaustive exploration of small vocabularies by TLC, and the replay of all of it in the real code"""
import json
import os
import re
import shutil
import tempfile

import jsonv
import run
import uri
from jsonv import Num, dumps, enc
from session import Session, urikeys

V = re.compile(r'^<<\s*"V",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)",\s*<<([0-9,\s]*)>>\s*>>', re.M)

BASE_RE = {"": ["cat", []]}


class Group:
    """atoms: schemas; insts: JSON texts (notation matters to the implementation only)"""

    def __init__(self, name, drafts, forms, atoms, insts, re_=None, laws=True):
        self.name, self.drafts, self.forms, self.atoms, self.laws = name, drafts, forms, atoms, laws
        self.texts = [i if isinstance(i, str) else dumps(i) for i in insts]
        self.re = dict(BASE_RE, **(re_ or {}))

    def vocab(self):
        vals = [jsonv.parse(t) for t in self.texts]
        strs, us = set(), set()
        for d in vals + self.atoms:
            jsonv.strings(d, strs)
            urikeys(d, us)
        strs |= {"a", "b", "d", "e", "r", "#/definitions/d", "#/definitions/e", "#/definitions/r", "array", "object", "^a", "^a$"}
        us |= {"", "#/definitions/d", "#/definitions/e", "#/definitions/r"}
        return dict(drafts=self.drafts, forms=self.forms, atoms=[enc(a) for a in self.atoms], insts=[enc(v) for v in vals], laws=self.laws,
                    str={t: [ord(c) for c in t] for t in strs}, re=self.re, uri={u: uri.parse(u) for u in us})


def unescape(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


def explore(out, groups, module="MCSchema", timeout=1500):
    """[(group, draft, schema, verdicts or None if malformed)], all that TLC visited"""
    os.makedirs(run.WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix="mc", dir=run.WORK)
    try:
        path = os.path.join(d, "vocab.json")
        with open(path, "w") as f:
            json.dump([g.vocab() for g in groups], f)
        rc, o = run.tlc(module + ".tla", module + ".cfg", dict(VOCAB=path), timeout=timeout)
        m = run.STATS.findall(o)
        if rc != 0 or not m:
            raise run.ToolError("TLC failed on %s:\n" % module + re.sub(V, "", o)[-4000:])
        out.model_states += int(m[-1][1])
        res = []
        for g, dr, s, v in V.findall(o):
            res.append((int(g) - 1, int(dr), jsonv.dec(json.loads(unescape(s))), "".join(x.strip() for x in v.split(",")) or None))
        if len(res) != o.count('"V"'):
            raise run.ToolError("output of TLC not understood: %d of %d" % (len(res), o.count('"V"')))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bulk(dr, auto, schemas, texts):
    s = Session(None, [])
    s.judge = "none"
    s.op(dict(op="mbulk", auto=auto, dr=dr, strs=[dumps(x) for x in schemas], docs=texts), dict(op="skip"))
    return s


def alone(exe, s):
    s.id = 1
    return run.execute(exe, [s])[0][1]


def again(exe, d):
    """replays one finding: (agrees, observed)"""
    o = alone(exe, bulk(d["draft"], d["auto"], [jsonv.parse(d["schema"])], d["instances"]))
    got = str(o) if isinstance(o, tuple) else o[0].get("bits") or str(o[0])
    return got == d["expected"], got


def replay(out, exe, groups, res, size=400):
    """every schema that TLC formed, with all its instances, in the real code"""
    by = {}
    for r in res:
        by.setdefault((r[0], r[1]), []).append(r)
    ss, parts = [], []
    for (g, dr), rs in sorted(by.items()):
        rs.sort(key=lambda r: dumps(r[2]))
        for i in range(0, len(rs), size):
            part = rs[i:i + size]
            ss.append(bulk(dr, (i // size) % 2 == 0, [r[2] for r in part], groups[g].texts))
            parts.append(part)
    for k, s in enumerate(ss):
        s.id = k + 1
    obs, _ = run.execute(exe, ss)
    n = 0
    for s, part in zip(ss, parts):
        o = obs[s.id]
        if o == run.SKIPPED:
            continue
        if isinstance(o, tuple) or o[0].get("panic"):
            o = alone(exe, s)
        if isinstance(o, tuple) or o[0].get("panic"):
            out.violation("no verdict: %s" % str(o)[:300], dict(observed=str(o)[:2000], session=s.harness()))
            if len(out.violations) >= 3:
                return
            continue
        for (g, dr, S, want), got in zip(part, o[0]["bits"].split(",")):
            n += 1
            exp = want if want is not None else "E"
            if got != exp:
                k = [i for i in range(len(exp)) if i >= len(got) or got[i] != exp[i]]
                what = ("schema %s (draft %d): " % (dumps(S)[:400], dr)) + (
                    "compilation %s" % ("succeeds, but it is malformed" if exp == "E" else "fails or crashes (%s), but it is well-formed" % got[:10])
                    if "E" in (got, exp) or not k else "instance %s is %s, the verdict is %s" % (groups[g].texts[k[0]][:200], "valid" if exp[k[0]] == "1" else "invalid", got[k[0]:k[0] + 1]))
                out.violation(what, dict(schema=dumps(S), draft=dr, auto=s.ops[0][0]["auto"], instances=groups[g].texts, expected=exp, observed=got))
                if len(out.violations) >= 3:
                    return
    out.count(schemas_from_the_model=n, verdicts_from_the_model=sum(len(r[3] or "") for r in res))
    out.traces += n


def small(out, groups):
    """decides all of the groups' schemas and instances"""
    exe = run.build()
    res = explore(out, groups)
    replay(out, exe, groups, res)


def reports(out, rng, groups, fails, passes=1, limit=10 ** 9, asp=("errs",), keep=lambda S: True):
    """the reports of every schema that TLC formed, on some of the instances that it rejects"""
    from driver import conform
    exe = run.build()
    res = [r for r in explore(out, groups) if r[3] and keep(r[2])]
    res.sort(key=lambda r: (r[0], r[1], dumps(r[2])))
    if len(res) > limit:
        res = rng.sample(res, limit)
    out.count(schemas_from_the_model=len(res))
    size = 4000
    for i in range(0, len(res), size):
        ss = []
        for g, dr, S, v in res[i:i + size]:
            no = [k for k in range(len(v)) if v[k] == "0"]
            yes = [k for k in range(len(v)) if v[k] == "1"]
            ks = rng.sample(no, min(fails, len(no))) + rng.sample(yes, min(passes, len(yes)))
            s = Session(rng, asp)
            l = s.new(auto=rng.random() < .5, dr=dr)
            c = s.compile(l, S)
            for k in ks:
                s.validate(c, jsonv.parse(groups[g].texts[k]), full=True)
            s.re = groups[g].re
            ss.append(s)
        conform(out, ss, exe)
        if out.violations or out.elapsed() > (300 if out.tier == "quick" else 3000):
            return
