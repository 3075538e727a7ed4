"""Building the harness, executing sessions, judging traces with TLC"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import jsonv
import session as S

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
WORK = os.path.join(ROOT, "work")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


class ToolError(Exception):
    """the machinery itself failed; no verdict"""


def goenv(**kw):
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    e.pop("GOFLAGS_EXTRA")
    e.update(kw)
    return e


def build(race=False):
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "harness-race" if race else "harness")
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError("harness does not build:\n" + p.stdout)
    return out


def meta_file(dir_):
    p = os.path.join(dir_, "meta.json")
    with open(p, "w") as f:
        json.dump({"d%d" % d: jsonv.enc(v) for d, v in S.META.items()}, f)
    return p


# ---------------------------------------------------------------- harness

SKIPPED = ("skipped", "")


def run_chunk(exe, sessions, timeout=300, env=None):
    """observations per session: a list, or ("crash", text) / ("hang", text).  A session that
    kills the process is reported and the remaining ones go on in a new process."""
    out = {}
    todo = list(sessions)
    while todo:
        if sum(1 for o in out.values() if o[0:1] == ("hang",)) >= 2:
            # enough has been seen, and every further one takes long
            out.update((s.id, SKIPPED) for s in todo)
            break
        data = "".join(json.dumps(s.harness()) + "\n" for s in todo)
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        try:
            o, e = p.communicate(data.encode(), timeout=timeout)
            late = False
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
            late = True
        started = None
        for line in o.decode("utf-8", "replace").split("\n"):
            if not line.strip():
                continue
            try:
                d = json.loads(line)
            except ValueError:
                break
            if "start" in d:
                started = d["start"]
            elif "hang" in d:
                out[d["hang"]] = ("hang", "no answer in time")
            else:
                out[d["id"]] = d["obs"]
        if p.returncode == 4:
            raise ToolError("harness: " + e.decode("utf-8", "replace")[-2000:])
        rest = [s for s in todo if s.id not in out]
        if not rest:
            break
        if late or p.returncode != 0:
            if started is None or started in out:
                if started in out and out[started][0] == "hang":
                    todo = rest
                    continue
                raise ToolError("harness ended with %s: %s" % (p.returncode, e.decode("utf-8", "replace")[-2000:]))
            out[started] = ("hang", "no answer in time") if late else ("crash", e.decode("utf-8", "replace")[:3000])
            todo = [s for s in rest if s.id != started]
        else:
            raise ToolError("harness did not answer every session")
    return out


def execute(exe, sessions, nproc=CORES, timeout=600, env=None):
    n = max(1, min(nproc, (len(sessions) + 9) // 10))
    chunks = [sessions[i::n] for i in range(n)]
    res = {}
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(lambda c: run_chunk(exe, c, timeout, env), chunks):
            res.update(r)
    return res, chunks


# ---------------------------------------------------------------- TLC

STATS = re.compile(r'^(\d+) states generated, (\d+) distinct states found, (\d+) states left', re.M)


def tlc(module, cfg, env, workers=CORES, timeout=850, heap="12g", extra=(), keep=None):
    """runs TLC; returns (output, generated, distinct)"""
    tmp = tempfile.mkdtemp(prefix="tlc", dir=WORK)
    try:
        e = dict(os.environ)
        e.update(env)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", 
               "-cp", JARS, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE", "-metadir", tmp, "-workers", str(workers), "-config", cfg] + list(extra) + [module]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC ran out of time on " + module)
        o = p.stdout.decode("utf-8", "replace")
        return p.returncode, o
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


MISM = re.compile(r'^<<"MISMATCH", (\d+), (\d+), "([^"]*)">>', re.M)


def judge(traces, module="Trace.tla", cfg="Trace.cfg", timeout=850, parts=4):
    """validates recorded sessions; returns (mismatches [(id, step, what)], states, transitions)"""
    n = max(1, min(parts, len(traces) // 40))
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda i: judge1(traces[i::n], module, cfg, timeout, max(1, CORES // n)), range(n)))
    return sum((r[0] for r in rs), []), sum(r[1] for r in rs), sum(r[2] for r in rs)


def judge1(traces, module, cfg, timeout, workers):
    if not traces:
        return [], 0, 0
    os.makedirs(WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix="judge", dir=WORK)
    try:
        path = os.path.join(d, "trace.ndjson")
        with open(path, "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
        rc, o = tlc(module, cfg, dict(TRACE=path, META=meta_file(d)), workers, timeout, heap="6g")
        m = STATS.findall(o)
        if rc != 0 or not m:
            keep = os.path.join(WORK, "failed")
            os.makedirs(keep, exist_ok=True)
            shutil.copy(path, os.path.join(keep, "trace.ndjson"))
            raise ToolError("TLC failed (%d):\n%s" % (rc, o[-6000:]))
        gen, dis, left = map(int, m[-1])
        mm = [(int(a), int(b), c) for a, b, c in MISM.findall(o)]
        if o.count("MISMATCH") != len(mm):
            raise ToolError("TLC's output is garbled:\n" + o[-6000:])
        stopped = {a for a, _, _ in mm}
        # every session was followed to its end
        want = sum(len(t["ops"]) + 1 for t in traces if t["id"] not in stopped)
        if dis < want or left:
            raise ToolError("TLC visited %d states, expected at least %d" % (dis, want))
        return mm, dis, gen
    finally:
        shutil.rmtree(d, ignore_errors=True)
