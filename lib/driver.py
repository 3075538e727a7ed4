"""The flow of a check: generate, execute, judge, confirm, report"""
import json
import os
import glob
import pickle
import random
import sys
import time
import traceback

import run
from run import ToolError, ROOT, WORK

sys.setrecursionlimit(200000)
LEVEL = "model_checking"


class Outcome:
    """what a check has covered and found so far"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.validations = 0
        self.model_states = 0
        self.samples = []
        self.violations = []
        self.extra = {}
        self.assumptions = []

    def elapsed(self):
        return time.time() - self.t0

    def count(self, **kw):
        for k, v in kw.items():
            self.extra[k] = self.extra.get(k, 0) + v

    def evidence(self):
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   model_checking_states=self.model_states, samples=self.samples[:4])
        cov.update(self.extra)
        e = dict(property=self.pid, tier=self.tier, seed=self.seed, level=LEVEL, coverage=cov,
                 assumptions=self.assumptions, wall_s=round(self.elapsed(), 1), violations=len(self.violations))
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(e, f, indent=1)

    def violation(self, what, payload):
        d = os.path.join(WORK, "replay")
        os.makedirs(d, exist_ok=True)
        n = len(self.violations) + 1
        path = os.path.join(d, "%s-%d.json" % (self.pid, n))
        with open(path, "w") as f:
            json.dump(payload, f, indent=1)
        self.violations.append((what, path))
        print("%s: %s" % (self.pid, what))
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        sys.stdout.flush()


def bad_obs(o):
    """a panic, crash or hang in the observations of a session"""
    if o == run.SKIPPED:
        return None
    if isinstance(o, tuple):
        return o[0] + ": " + o[1]
    for i, x in enumerate(o):
        if x.get("panic"):
            return "panic in call %d: %s" % (i + 1, x["panic"])
    return None


def judge_all(sessions, obs):
    """mismatches {id: (step, what)}, states, transitions, traces"""
    bad = {}
    traces = []
    for s in sessions:
        b = bad_obs(obs[s.id])
        if b:
            bad[s.id] = (0, b)
        elif s.judge == "none" or obs[s.id] == run.SKIPPED:
            pass
        else:
            traces.append(s.trace(obs[s.id]))
    mm, st, tr = run.judge(traces)
    for i, step, what in mm:
        if what == "SPEC":
            raise ToolError("the specification contradicts itself in session %d step %d" % (i, step))
        if what not in [w for _, w in [bad.get(i, (0, ""))]]:
            bad.setdefault(i, (step, what))
    return bad, st, tr, traces


def describe(s, obs, step, what):
    ops = []
    for k, (h, _) in enumerate(s.ops):
        o = obs[k] if not isinstance(obs, tuple) and k < len(obs) else None
        ops.append(dict(call=h, observed=o))
    return dict(property_aspects=s.asp, disagreement=what, step=step, http=s.http, files=s.files, calls=ops, seed_note=s.note)


def confirm(exe, s, chunk, first):
    """reproduces a disagreement in new processes: the session alone, then what preceded it too"""
    import copy
    for times in (1, 40, 300):
        cs = []
        for k in range(times):
            c = copy.copy(s)
            c.id = k + 1
            cs.append(c)
        obs, _ = run.execute(exe, cs)
        bad, _, _, _ = judge_all(cs, obs)
        if bad:
            k = sorted(bad)[0]
            return obs[k], bad[k]
    cs = []
    for k, x in enumerate(chunk):
        c = copy.copy(x)
        cs.append(c)
    obs = run.run_chunk(exe, cs)
    one = [c for c in cs if c.id == s.id]
    bad, _, _, _ = judge_all(one, obs)
    if s.id in bad:
        return obs[s.id], bad[s.id]
    return None


def conform(out, sessions, exe, limit=3):
    """executes sessions in the real code and judges them"""
    for k, s in enumerate(sessions):
        s.id = k + 1
    obs, chunks = run.execute(exe, sessions)
    bad, st, tr, traces = judge_all(sessions, obs)
    out.states += st
    out.transitions += tr
    out.traces += len(traces)
    for t in traces:
        for o in t["ops"]:
            if o["op"] == "call":
                out.count(calls=1, errors=1 if o["ret"] == "error" else 0)
            elif o["op"] == "validate":
                out.count(validations=1, accepted=1 if o.get("valid") else 0)
            elif o["op"] == "compile":
                out.count(compilations=1, rejected_schemas=0 if o["ok"] else 1)
    for s in sessions[:: max(1, len(sessions) // 2)]:
        if len(out.samples) < 4:
            d = json.dumps([h for h, _ in s.ops])
            if len(d) < 3000:
                out.samples.append(json.loads(d))
    unconfirmed = []
    for i in sorted(bad):
        if len(out.violations) >= limit or len(unconfirmed) >= 8 or (out.violations and out.elapsed() > 500):
            break
        s = sessions[i - 1]
        step, what = bad[i]
        chunk = [c for c in chunks if s in c][0]
        chunk = chunk[:chunk.index(s) + 1]
        r = confirm(exe, s, chunk, bad[i])
        if r is None:
            unconfirmed.append((i, step, what))
            continue
        o2, (step, what) = r
        out.violation("session disagrees with the specification at step %d: %s" % (step, what.splitlines()[0] if what else what),
                      dict(describe(s, o2, step, what), session=s.harness(), pickled=pickle.dumps(s).hex()))
    if unconfirmed and not out.violations:
        raise ToolError("disagreements that could not be reproduced: %s" % unconfirmed[:5])


def main(args):
    import props
    import props2  # noqa: F401
    import props3  # noqa: F401
    import props4  # noqa: F401
    if args and args[0] == "--replay":
        return replay(args[1])
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    out = Outcome(pid, tier, seed)
    os.makedirs(WORK, exist_ok=True)
    for f in glob.glob(os.path.join(WORK, "replay", pid + "-*.json")):
        os.remove(f)
    try:
        props.PROPS[pid](out, random.Random("%s-%d-%s" % (pid, seed, tier)))
    except ToolError as e:
        if not out.violations:
            print("NO VERDICT: %s" % e)
            out.evidence()
            return 2
    except Exception:
        print(traceback.format_exc()[-3000:])
        if not out.violations:
            return 2
    out.evidence()
    if out.violations:
        return 1
    print("%s %s: held; %d sessions, %d states, %.0f s %s" % (pid, tier, out.traces, out.states, out.elapsed(), out.extra))
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    if "expected" in d:
        import mc
        ok, got = mc.again(run.build(), d)
        print(json.dumps(dict(d, observed_now=got), indent=1)[:20000])
        return 0 if ok else 1
    if "pickled" not in d:
        print(json.dumps(d, indent=1)[:20000])
        return 0
    s = pickle.loads(bytes.fromhex(d["pickled"]))
    exe = run.build()
    s.id = 1
    obs, _ = run.execute(exe, [s])
    bad, _, _, _ = judge_all([s], obs)
    print(json.dumps(describe(s, obs[1], *(bad.get(1, (0, "agrees")))), indent=1))
    return 1 if bad else 0
