"""Checks about concurrent use"""
import copy
import json
import os
import pickle
import re
import shutil
import tempfile
import run
from driver import bad_obs, conform, judge_all
from gen import Gen
from jsonv import dumps, strings
from props import prop, amount
from session import Session

# ------------------------------------------------------------------ C16

NAMES = ["ipv4", "cx", "cy", "cz"]
STR = ["1.2.3.4", "x"]


def call(r, depth=0, plain=False):
    """a call on the registry, for the specification"""
    p = r.random()
    name = r.choice(NAMES[:3]) if not plain else r.choice(["cy", "cz"])
    if p < .3:
        return dict(op="add", name=name, ck=chk(r, depth, plain))
    if p < .42:
        return dict(op="del", name=name)
    if p < .55:
        return dict(op="has", name=name)
    return dict(op=r.choice(["is", "val", "val"]), name=name, v=[ord(c) for c in r.choice(STR)])


def chk(r, depth, plain):
    p = r.random()
    b = r.random() < .5
    if p < .3 or plain:
        return ["const", b]
    if p < .7:
        return ["park", b]
    return ["do", call(r, depth + 1, True), b]


def harness_op(c, schemas):
    """the call as made in the implementation; schemas: name -> number of a compiled schema"""
    t = json.dumps("".join(map(chr, c["v"]))) if "v" in c else None
    if c["op"] == "add":
        ck = c["ck"]
        if ck[0] == "std":
            return dict(op="fstd", name=c["name"], u=ck[1])
        if ck[0] == "do":
            k = dict(k="do", a=json.dumps(ck[2]), op=harness_op(ck[1], schemas))
        else:
            k = dict(k=ck[0], a=json.dumps(ck[1]))
        return dict(op="fadd", name=c["name"], ck=k)
    if c["op"] == "del":
        return dict(op="fdel", name=c["name"])
    if c["op"] == "has":
        return dict(op="fhas", name=c["name"])
    if c["op"] == "is":
        return dict(op="fis", name=c["name"], src=dict(k="raw", t=t))
    i, wrap = schemas[c["name"]]
    return dict(op="validate", s=i, src=dict(k="string", t=wrap % t))


WRAPS = [('{"format": %s}', "%s"), ('{"properties": {"a": {"format": %s}}}', '{"a": %s}'), ('{"items": {"format": %s}}', "[%s]"),
         ('{"allOf": [{"format": %s}]}', "%s"), ('{"anyOf": [{"format": %s}]}', "%s"), ('{"not": {"not": {"format": %s}}}', "%s"),
         ('{"additionalProperties": {"format": %s}}', '{"b": %s}'), ('{"contains": {"format": %s}}', "[%s]"),
         ('{"definitions": {"f": {"format": %s}}, "allOf": [{"$ref": "#/definitions/f"}]}', "%s"), ('{"if": {"format": %s}, "else": false}', "%s")]


def setup(r):
    ops, schemas = [], {}
    for i, n in enumerate(NAMES):
        s, w = r.choice(WRAPS)
        ops.append(dict(op="compile", src=dict(k="string", t=s % json.dumps(n))))
        schemas[n] = (i + 1, w)
    return ops, schemas


def result(h, o):
    return o["valid"] if h["op"] == "validate" else o["r"] if h["op"] in ("fhas", "fis") else o["ok"]


class ConcSession(Session):
    """a schedule or a free run; the setup calls are the ordinary calls of the session"""

    def __init__(self, rng):
        Session.__init__(self, rng, [])
        self.judge = "none"
        self.conc = {}
        self.setup_ops = []

    def harness(self):
        d = dict(id=self.id, ops=self.setup_ops, conc=self.conc)
        return d


BEHAVIOUR = re.compile(r'^<<"B", (\d+), "(.*)">>$', re.M)


def schedules(out, rng, n, cap):
    """programs and all their behaviours, by TLC: [(program, [step, ...])]"""
    progs = []
    while len(progs) < n:
        shape = rng.choice([(2, 2), (2, 3), (3, 2), (3, 2), (2, 2, 2), (2, 1, 2), (1, 2, 1, 1)])
        p = [[call(rng) for _ in range(k)] for k in shape]
        if not any(c["op"] == "add" and c["ck"][0] != "const" for q in p for c in q) and rng.random() < .8:
            continue
        # make sure that something waits
        p[0].insert(0, dict(op="add", name="cx", ck=chk(rng, 0, False)))
        progs.append(dict(progs=p))
    d = tempfile.mkdtemp(prefix="conc", dir=run.WORK)
    try:
        path = os.path.join(d, "progs.json")
        with open(path, "w") as f:
            json.dump(progs, f)
        rc, o = run.tlc("Conc.tla", "Conc.cfg", dict(PROGS=path), timeout=1500)
        m = run.STATS.findall(o)
        if rc != 0 or not m:
            raise run.ToolError("TLC failed on Conc:\n" + re.sub(BEHAVIOUR, "", o)[-3000:])
        out.model_states += int(m[-1][1])
        got = {}
        for k, b in BEHAVIOUR.findall(o):
            got.setdefault(int(k) - 1, []).append(json.loads(b.replace('\\"', '"')))
        res = []
        for k, bs in sorted(got.items()):
            bs.sort(key=str)
            if len(bs) > cap:
                bs = rng.sample(bs, cap)
            res += [(progs[k]["progs"], b) for b in bs]
        if len(got) != len(progs):
            raise run.ToolError("programs without behaviour")
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sched_session(rng, p, b):
    s = ConcSession(rng)
    s.setup_ops, sc = setup(rng)
    s.conc = dict(progs=[[harness_op(c, sc) for c in q] for q in p], sched=["%s%d" % (x[0], x[1]) for x in b])
    s.want = b
    return s


def sched_bad(s, o):
    """what contradicts the behaviour that the specification prescribes"""
    b = bad_obs(o)
    if b or o == run.SKIPPED:
        return b
    o = o[len(s.setup_ops):]
    at = [0] * len(s.conc["progs"])
    for i, (k, g, st, r, nested) in enumerate(s.want):
        if k == "s":
            at[g - 1] += 1
        h = s.conc["progs"][g - 1][at[g - 1] - 1]
        if i >= len(o):
            return "the schedule stopped before step %d" % (i + 1)
        x = o[i]
        if x.get("ev") != st:
            return "step %d: goroutine %d is %s, expected %s" % (i + 1, g, x.get("ev"), st)
        if st == "done":
            if result(h, x) != r or [bool(v) for v in x.get("nested") or []] != list(nested):
                return "step %d: goroutine %d got %s (its checkers: %s), expected %s (%s)" % (i + 1, g, result(h, x), x.get("nested") or [], r, nested)
    return None


def report(out, exe, ss, obs, judge):
    """judge: session, observation -> complaint.  What was recorded contradicts the specification
    whether or not it happens again; only a call that did not return in time has to do so twice."""
    for s in ss:
        o = obs[s.id]
        w = judge(s, o)
        if not w:
            continue
        if isinstance(o, tuple) and o[0] == "hang":
            o = None
            for _ in range(2):
                c = copy.copy(s)
                c.id = 1
                o2, _ = run.execute(exe, [c], env=dict(ENV, VERIF_STUCK="40s"))
                if judge(c, o2[1]):
                    o, w = o2[1], judge(c, o2[1])
                    break
            if o is None:
                out.count(unreproduced=1)
                if out.extra["unreproduced"] >= 3:
                    raise run.ToolError("calls that did not return in time once, but do when repeated")
                continue
        out.violation(w.splitlines()[0], dict(complaint=w, session=s.harness(), expected=getattr(s, "want", None), observed=list(o)))
        if len(out.violations) >= 2:
            return


ENV = dict(os.environ, GORACE="halt_on_error=1 exitcode=66", VERIF_SESSION_TIMEOUT="120s")


# ------------------------------------------------------------------ free runs

def pure_part(rng, s, g, n, S, shared):
    """validations with shared schemas and compilations of own ones"""
    for _ in range(n):
        p = rng.random()
        if p < .55:
            c, T = rng.choice(S)
            if shared and rng.random() < .5:
                i = rng.randrange(len(shared))
                s.validate(c, shared[i], "raw", full=True)
                s.ops[-1][0]["src"] = dict(k="shared", w=i)
            else:
                s.validate(c, g.aim(T, 3), rng.choice(["string", "raw", "bytes"]), full=True)
        else:
            T = g.schema(2)
            while not isinstance(T, dict):
                T = g.schema(2)
            l = s.new(dr=7, vali=rng.random() < .2)
            c = s.compile(l, T)
            s.validate(c, g.aim(T, 3), full=True)


class FreeSession(ConcSession):
    """goroutines that run freely.  parts: per goroutine an ordinary session with the same
    setup; its calls after the setup are what the goroutine does, besides calls on the registry"""

    def split(self, obs):
        n = len(self.setup_ops)
        setup, rest = obs[:n], obs[n:]
        out = []
        for q in self.conc["progs"]:
            out.append(rest[:len(q)])
            rest = rest[len(q):]
        return setup, out

    def traces(self, obs):
        setup, per = self.split(obs)
        ts = []
        for part, mine, o in zip(self.parts, self.mine, per):
            t = part.trace(setup[:part.nsetup] + [x for m, x in zip(mine, o) if m is None])
            ts.append(t)
        return ts

    def history(self, obs):
        setup, per = self.split(obs)
        ev = []
        for g, (mine, o) in enumerate(zip(self.mine, per)):
            for m, h, x in zip(mine, self.conc["progs"][g], o):
                if m is not None:
                    ev.append((x["inv"], dict(e="inv", g=g + 1, c=m)))
                    ev.append((x["ret"], dict(e="ret", g=g + 1, r=result(h, x))))
        return dict(id=self.id, n=len(per), ev=[e for _, e in sorted(ev, key=lambda t: t[0])])


def simple_call(r):
    c = call(r)
    if c["op"] == "add":
        c["ck"] = ["const", r.random() < .5] if c["name"] != "ipv4" or r.random() < .5 else ["std", "ipv4"]
    return c


def free_session(rng):
    g = Gen(rng, 7, {"type": 1, "num": 2, "str": 1, "eq": 1, "arr": 2, "obj": 3, "comb": 2, "cond": .5, "format": .3}, odd=.05, exact15=True)
    g.formats = ["date", "uuid", "hostname"]
    s = FreeSession(rng)
    n = rng.choice([2, 3, 4, 6])
    base = Session(rng, ["verdict", "errs"])
    T = []
    for _ in range(rng.choice([1, 2])):
        S = g.schema(3)
        while not isinstance(S, dict):
            S = g.schema(3)
        T.append((base.compile(base.new(dr=7), S), S))
    shared = [g.aim(rng.choice(T)[1], 4) for _ in range(3)]
    fops, sc = setup(rng)
    k = base.ns
    sc = {m: (i + k, w) for m, (i, w) in sc.items()}
    s.setup_ops = [o[0] for o in base.ops] + fops
    # fresh error templates: their first use is concurrent
    s.setup_ops.append(dict(op="locale", locale=dict(suffix=" [%d]" % rng.randrange(10 ** 9))))
    s.parts, s.mine, progs = [], [], []
    for _ in range(n):
        p = Session(rng, ["verdict", "errs"])
        p.ops = list(base.ops)
        p.meta = True
        p.nsetup = len(base.ops)
        p.docs = list(base.docs)
        p.nl, p.ns = base.nl, base.ns
        mine, prog = [], []
        for _ in range(rng.choice([2, 4, 6])):
            if rng.random() < .5:
                before = len(p.ops)
                q = Session(rng, [])
                pure_part(rng, p, g, 1, T, shared)
                for h, _ in p.ops[before:]:
                    mine.append(None)
                    prog.append(h)
            else:
                c = simple_call(rng)
                mine.append(c)
                prog.append(harness_op(c, sc))
        # the goroutine's own schemas come after those of the setup, which has more than the part knows
        seen = base.ns
        fixed = []
        for m, h in zip(mine, prog):
            h = dict(h)
            if m is None and h["op"] == "validate" and h["s"] > base.ns:
                h["s"] += len(fops)
            fixed.append(h)
        progs.append(fixed)
        s.mine.append(mine)
        p.re = g.re
        s.parts.append(p)
    s.conc = dict(progs=progs, docs=[dumps(x) for x in shared])
    return s


def free_judge(out, exe, ss, obs):
    """races, crashes and hangs; histories by LinTrace, everything else by Trace"""
    report(out, exe, [s for s in ss if bad_obs(obs[s.id])], obs, lambda s, o: bad_obs(o))
    good = [s for s in ss if not bad_obs(obs[s.id]) and obs[s.id] != run.SKIPPED]
    out.count(free_runs=len(ss))
    if out.violations or not good:
        return
    bad = lin_bad(out, [s.history(obs[s.id]) for s in good])
    for s in good:
        if s.id in bad and len(out.violations) < 2:
            out.violation("no sequential order of the calls explains the history", dict(session=s.harness(), observed=obs[s.id], history=s.history(obs[s.id])))
    ts, owner, which = [], {}, {}
    for s in good:
        for g, t in enumerate(s.traces(obs[s.id])):
            t["id"] = len(ts) + 1
            which[t["id"]] = g + 1
            owner[t["id"]] = s
            ts.append(t)
    mm, st, tr = run.judge(ts)
    out.states += st
    out.transitions += tr
    out.traces += len(ts)
    for i, step, what in mm:
        if what == "SPEC":
            raise run.ToolError("the specification contradicts itself")
        if len(out.violations) < 2:
            o = owner[i]
            out.violation("a concurrent call differs from its sequential outcome (%s)" % what, dict(session=o.harness(), observed=obs[o.id], goroutine=which[i], step=step))


def storm_session(rng, calls):
    """goroutines that change the registry all the time, each under a name of its own: what one
    does under its name is in the order of its calls, whatever the others do under theirs"""
    s = ConcSession(rng)
    n = rng.choice([4, 6, 8, 8])
    s.mine = []
    for g in range(n):
        mine = []
        name = "s%d" % g
        for _ in range(calls):
            p = rng.random()
            if p < .4:
                c = dict(op="add", name=name, ck=["const", rng.random() < .5])
            elif p < .6:
                c = dict(op="del", name=name)
            elif p < .8:
                c = dict(op="has", name=name)
            else:
                c = dict(op="is", name=name, v=[ord(x) for x in rng.choice(STR)])
            mine.append(c)
        s.mine.append(mine)
    s.conc = dict(progs=[[harness_op(c, {}) for c in q] for q in s.mine])
    return s


def storms(out, exes, rng, k, calls):
    for exe in exes:
        ss = [storm_session(rng, calls) for _ in range(k)]
        for i, s in enumerate(ss):
            s.id = i + 1
        obs, _ = run.execute(exe, ss, nproc=2, env=ENV)
        report(out, exe, [s for s in ss if bad_obs(obs[s.id])], obs, lambda s, o: bad_obs(o))
        if out.violations:
            return
        hs, owner = [], {}
        for s in ss:
            o = obs[s.id]
            if o == run.SKIPPED:
                continue
            for g, (m, p) in enumerate(zip(s.mine, s.conc["progs"])):
                mine, o = o[:len(m)], o[len(m):]
                ev = []
                for c, h, x in zip(m, p, mine):
                    ev += [dict(e="inv", g=1, c=c), dict(e="ret", g=1, r=result(h, x))]
                hs.append(dict(id=len(hs) + 1, n=1, ev=ev))
                owner[len(hs)] = (s, g)
        out.count(storms=len(ss))
        bad = lin_bad(out, hs)
        for i in sorted(bad)[:2]:
            s, g = owner[i]
            out.violation("what a goroutine did under its own name was not in force for its next call", dict(session=s.harness(), goroutine=g + 1, history=hs[i - 1]))
        if bad:
            return


DONE = re.compile(r'^<<"DONE", (\d+)>>', re.M)


def lin_bad(out, hists):
    d = tempfile.mkdtemp(prefix="lin", dir=run.WORK)
    try:
        path = os.path.join(d, "h.ndjson")
        with open(path, "w") as f:
            for h in hists:
                f.write(json.dumps(h) + "\n")
        rc, o = run.tlc("LinTrace.tla", "LinTrace.cfg", dict(TRACE=path), timeout=850)
        m = run.STATS.findall(o)
        if rc != 0 or not m:
            raise run.ToolError("TLC failed on LinTrace:\n" + o[-3000:])
        if out is not None:
            out.states += int(m[-1][1])
            out.transitions += int(m[-1][0])
            out.traces += len(hists)
            out.count(histories=len(hists), calls_in_histories=sum(len(h["ev"]) // 2 for h in hists))
        done = {int(x) for x in DONE.findall(o)}
        return {h["id"] for h in hists} - done
    finally:
        shutil.rmtree(d, ignore_errors=True)


def design(out):
    """the lock design satisfies the properties, and the variant that it avoids does not"""
    rc, o = run.tlc("RegistryLock.tla", "RegistryLock.cfg" if out.tier == "quick" else "RegistryLockDeep.cfg", {}, timeout=1200)
    m = run.STATS.findall(o)
    if rc != 0 or not m:
        raise run.ToolError("TLC failed on RegistryLock:\n" + o[-3000:])
    out.model_states += int(m[-1][1])
    rc, o = run.tlc("RegistryLock.tla", "RegistryLockHeld.cfg", {}, timeout=600)
    if "Invariant NotStuck is violated" not in o:
        raise run.ToolError("the model of the lock does not see the deadlock:\n" + o[-2000:])


@prop
def c16(out, rng):
    design(out)
    exe = run.build()
    bs = schedules(out, rng, amount(out, 40, 300), amount(out, 250, 1500))
    ss = [sched_session(rng, p, b) for p, b in bs]
    for k, s in enumerate(ss):
        s.id = k + 1
    # a few first: where calls block, each of them takes long
    order = list(ss)
    rng.shuffle(order)
    for part in (order[:80], order[80:]):
        obs, _ = run.execute(exe, part, env=ENV)
        out.traces += len(part)
        out.count(schedules=len(part), scheduled_steps=sum(len(s.want) for s in part))
        report(out, exe, part, obs, sched_bad)
        if out.violations:
            return
    race = run.build(race=True)
    storms(out, [exe, race], rng, amount(out, 12, 150), amount(out, 200, 400))
    if out.violations:
        return
    n = amount(out, 600, 8000)
    while n > 0 and not out.violations:
        ss = [free_session(rng) for _ in range(min(n, 1000))]
        for k, s in enumerate(ss):
            s.id = k + 1
        obs, _ = run.execute(race, ss, nproc=4, env=ENV)
        free_judge(out, race, ss, obs)
        n -= 1000
