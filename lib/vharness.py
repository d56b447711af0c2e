"""Common machinery of all checks (see DESIGN.md, "How a check runs").

A check of property P is props/p.py, a module with
    SPEC    name of the TLA+ trace module (spec/<SPEC>.tla) that judges the recorded sessions
    MC      list of dicts(module, cfg, [gen=True], [workers], [tiers]) of models checked exhaustively by TLC;
            gen=True: the model prints every transition (ACTION_CONSTRAINT Emit), and the driver replays them
    SHARDS  {"quick": n, "thorough": m} number of driver processes
    drive(rec, tier, rng, shard, nshards, gen)   runs the real code and records sessions of events
"""
from __future__ import print_function
import hashlib
import importlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECDIR = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


# ------------------------------------------------------------------ recording
class Recorder(object):
    """Collects sessions; a session is a list of events (JSON objects)."""
    def __init__(self, fname):
        self.f = open(fname, "w")
        self.cur = None
        self.n = 0
        self.nev = 0

    def begin(self, name, **init):
        self.flush()
        self.cur = {"name": name, "init": init, "ev": []}
        return self

    def ev(self, **kw):
        self.cur["ev"].append(kw)
        self.nev += 1
        return kw

    def flush(self):
        if self.cur is not None:
            self.f.write(json.dumps(self.cur) + "\n")
            self.f.flush()
            self.n += 1
        self.cur = None

    def one(self, _name, **kw):
        """a session of one event"""
        self.begin(_name)
        self.ev(**kw)
        self.flush()

    def close(self):
        self.flush()
        self.f.close()


# ------------------------------------------------------------------ processes
def viscid_env(scratch):
    env = {}
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], stdout=subprocess.PIPE)
    if p.returncode != 0:
        raise MachineryError("env.sh failed")
    for item in p.stdout.split(b"\0"):
        if b"=" in item:
            k, v = item.split(b"=", 1)
            env[k.decode()] = v.decode()
    env["VERIF_SEED"] = os.environ.get("VERIF_SEED", "1")
    # a private home directory: the library reads $HOME/.viscidrc
    home = os.path.join(scratch, "home")
    os.makedirs(os.path.join(home, "mpl"), exist_ok=True)
    for f in (".viscidrc",):
        src = os.path.join("/repo/resources/viscidrc")
        if os.path.exists(src):
            shutil.copy(src, os.path.join(home, f))
    try:
        os.symlink("/repo/viscid/plot/styles", os.path.join(home, "mpl", "stylelib"))
    except OSError:
        pass
    env["HOME"] = home
    env["MPLCONFIGDIR"] = os.path.join(home, "mpl")
    return env


def run_proc(cmd, timeout, env=None, cwd=None, stdout=None):
    """run in its own process group, kill the whole group at the timeout; returns (rc, output) rc None = timeout"""
    out = open(stdout, "wb") if stdout else tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True,
                         stdin=subprocess.DEVNULL)
    return p, out


def wait_proc(p, deadline):
    try:
        rc = p.wait(timeout=max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    return rc


def build():
    p = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stdout.write(p.stdout.decode(errors="replace")[-3000:])
        raise MachineryError("build.sh failed")


# ------------------------------------------------------------------ TLC
def tlc_cmd(module, cfg, workers, metadir, heap="6g", extra=()):
    return (["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-cp", JAR, "tlc2.TLC",
             "-nowarning", "-metadir", metadir, "-workers", str(workers), "-config", cfg] + list(extra) + [module])


RE_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def parse_stats(text):
    m = None
    for m in RE_STATES.finditer(text):
        pass
    if m is None:
        return 0, 0
    return int(m.group(1)), int(m.group(2))


def run_model(mc, scratch, timeout):
    """exhaustive check of a model; returns dict(generated, distinct, lines)"""
    module, cfg = mc["module"], mc["cfg"]
    meta = tempfile.mkdtemp(prefix="mc", dir=scratch)
    outf = os.path.join(meta, "out.txt")
    cmd = tlc_cmd(os.path.join(SPECDIR, module + ".tla"), os.path.join(SPECDIR, cfg), mc.get("workers", 4), meta,
                  extra=["-deadlock"] + list(mc.get("extra", ())))
    p, out = run_proc(cmd, timeout, cwd=meta, stdout=outf)
    rc = wait_proc(p, time.time() + timeout)
    out.close()
    text = open(outf, errors="replace").read()
    if rc is None:
        raise MachineryError("model %s/%s did not finish in %d s" % (module, cfg, timeout))
    if rc != 0 or "Model checking completed. No error has been found" not in text:
        tail = "\n".join(l for l in text.splitlines() if not l.startswith('"'))[-4000:]
        raise MachineryError("model %s/%s failed (rc=%s):\n%s" % (module, cfg, rc, tail))
    gen, dis = parse_stats(text)
    lines = []
    if mc.get("gen"):
        for l in text.splitlines():
            if l.startswith('"{') or l.startswith('"['):
                lines.append(json.loads(json.loads(l)))
        if lines:
            # the first one starts at the initial state; the others come in any order
            first = lines[0][0]
            lines.sort(key=lambda x: (x[0] != first, json.dumps(x, sort_keys=True)))
    return dict(module=module, cfg=cfg, generated=gen, distinct=dis, lines=lines)


def tlc_trace(spec, tracefile, scratch, timeout, workers=8, heap="12g"):
    """judge the recorded sessions; returns (bad, consumed, generated, distinct, error_text)"""
    meta = tempfile.mkdtemp(prefix="tr", dir=scratch)
    outf = os.path.join(meta, "out.txt")
    cfg = os.path.join(SPECDIR, spec + ".cfg")
    env = dict(os.environ)
    env["TRACE"] = tracefile
    cmd = tlc_cmd(os.path.join(SPECDIR, spec + ".tla"), cfg, workers, meta, heap=heap,
                  extra=["-deadlock", "-maxSetSize", "5000000"])
    p, out = run_proc(cmd, timeout, env=env, cwd=meta, stdout=outf)
    rc = wait_proc(p, time.time() + timeout)
    out.close()
    text = open(outf, errors="replace").read()
    bad, done = [], 0
    for l in text.splitlines():
        if l.startswith('"{'):
            try:
                v = json.loads(json.loads(l))
            except ValueError:
                continue
            if "bad" in v:
                bad.append(v)
            elif "done" in v:
                done += 1
    gen, dis = parse_stats(text)
    err = None
    if rc is None:
        err = "TLC timed out"
    elif rc != 0 or "No error has been found" not in text:
        keep = [l for l in text.splitlines() if not l.startswith('"')]
        at = [k for k, l in enumerate(keep) if l.startswith("Error")]
        err = "\n".join(keep[at[0]:at[0] + 12] if at else [])[:1500] + "\n...\n" + "\n".join(keep)[-1500:]
    return bad, done, gen, dis, err


# ------------------------------------------------------------------ transitions -> replay paths
def tours(lines, rng, max_events=None, maxlen=60):
    """lines: [from, label, to] transitions of an exhaustive model, states are strings, first line's from is initial
    (a line ["init", state] names it). Yields label sequences from the initial state that together take every
    transition (or as many as max_events allows, chosen by rng)."""
    from collections import deque
    init = None
    out = {}
    for ln in lines:
        if ln[0] == "init":
            init = ln[1]
        else:
            out.setdefault(ln[0], []).append((ln[1], ln[2]))
    if init is None:
        init = lines[0][0]
    # deterministic order whatever the workers did
    for s in out:
        uniq = {}
        for lab, to in out[s]:
            uniq[json.dumps(lab, sort_keys=True)] = (lab, to)
        out[s] = [uniq[k] for k in sorted(uniq)]
    parent = {init: None}
    dq = deque([init])
    while dq:
        s = dq.popleft()
        for lab, to in out.get(s, ()):
            if to not in parent:
                parent[to] = (s, lab)
                dq.append(to)

    def path(s):
        p = []
        while parent[s] is not None:
            s, lab = parent[s]
            p.append(lab)
        return p[::-1]

    todo = {s: list(range(len(v))) for s, v in out.items() if s in parent}
    for s in sorted(todo):
        rng.shuffle(todo[s])
    order = sorted(todo)
    rng.shuffle(order)
    nev = 0
    total = sum(len(v) for v in todo.values())
    for s0 in order:
        while todo[s0]:
            seq = path(s0)
            s = s0
            while len(seq) < maxlen and todo.get(s):
                i = todo[s].pop()
                lab, s = out[s][i]
                seq.append(lab)
                total -= 1
                if not todo.get(s):
                    # hop over one already taken edge towards unfinished work
                    nxt = [(l2, t2) for l2, t2 in out.get(s, ()) if todo.get(t2)]
                    if nxt and len(seq) < maxlen:
                        l2, s = nxt[rng.randrange(len(nxt))]
                        seq.append(l2)
            nev += len(seq)
            yield seq
            if max_events and nev >= max_events:
                return


# ------------------------------------------------------------------ findings
def load_findings(pid):
    res = []
    fn = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d["property"] == pid:
                res.append(d)
    return res


def finding_matches(fd, sess, ev, bad):
    """a finding names the failing call: every key of fd['match'] must equal the event's (or session's) field"""
    for k, v in fd["match"].items():
        if k == "clause":
            got = bad.get("clause")
        elif k == "session":
            got = sess["name"]
        elif k.startswith("re:"):
            if not re.search(v, json.dumps((ev or {}).get(k[3:]), sort_keys=True)):
                return False
            continue
        else:
            got = (ev or {}).get(k)
        if got != v:
            return False
    return True


# ------------------------------------------------------------------ main
def drive_main(argv):
    """child process: python vharness.py drive <prop> <tier> <seed> <shard> <nshards> <genfile> <tracefile>"""
    prop, tier, seed, shard, nshards, genf, tracef = argv
    shard, nshards, seed = int(shard), int(nshards), int(seed)
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    sys.path.insert(0, os.path.join(VERIF, "props"))
    gen = json.load(open(genf))
    m = importlib.import_module(prop)
    rng = random.Random("%s/%d/%d" % (prop, seed, shard))
    import logging
    logging.disable(logging.CRITICAL)
    rec = Recorder(tracef)
    m.drive(rec, tier, rng, shard, nshards, gen)
    rec.close()


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-build", action="store_true")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--show", type=int, default=3)
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = a.prop.upper()
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    sys.path.insert(0, os.path.join(VERIF, "props"))
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        return _check(pid, a, t0, seed, scratch)
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("scratch:", scratch)


def _check(pid, a, t0, seed, scratch):
    tier = a.tier
    m = importlib.import_module(pid.lower())
    shutil.rmtree(os.path.join(OUT, pid), ignore_errors=True)
    limit = 840 if tier == "quick" else 6 * 3600
    deadline = t0 + limit
    if not a.no_build:
        build()
    # 1. models
    models = []
    gen = {}
    for mc in getattr(m, "MC", []):
        if tier not in mc.get("tiers", ("quick", "thorough")):
            continue
        r = run_model(mc, scratch, deadline - time.time())
        gen[mc.get("name", mc["cfg"])] = r.pop("lines")
        models.append(r)
    t_model = time.time() - t0
    # 2. drive the real code
    genf = os.path.join(scratch, "gen.json")
    json.dump(gen, open(genf, "w"))
    nsh = getattr(m, "SHARDS", {}).get(tier, 1)
    env = viscid_env(scratch)
    procs = []
    dl = min(deadline - 60, time.time() + getattr(m, "DRIVE_TIMEOUT", {}).get(tier, 500 if tier == "quick" else 4 * 3600))
    for i in range(nsh):
        wd = os.path.join(scratch, "wd%d" % i)
        os.makedirs(wd)
        tf = os.path.join(scratch, "trace%d.ndjson" % i)
        cmd = [PY, "-W", "ignore", os.path.join(VERIF, "lib", "vharness.py"), "drive", pid.lower(), tier, str(seed),
               str(i), str(nsh), genf, tf]
        p, out = run_proc(cmd, None, env=env, cwd=wd, stdout=os.path.join(scratch, "drive%d.log" % i))
        procs.append((p, out, tf, i))
    violations = []
    sessions = []
    merged = os.path.join(scratch, "trace.ndjson")
    for p, out, tf, i in procs:
        rc = wait_proc(p, dl)
        out.close()
        log = open(os.path.join(scratch, "drive%d.log" % i), errors="replace").read()
        if rc != 0:
            # the real code brought the driver down (uncaught exception outside a recorded call, crash, hang)
            violations.append(dict(kind="driver", shard=i, rc=rc, log=log[-3000:]))
        if os.path.exists(tf):
            for line in open(tf):
                try:
                    sessions.append(json.loads(line))
                except ValueError:
                    pass
    t_drive = time.time() - t0 - t_model
    nev = sum(len(s["ev"]) for s in sessions)
    with open(merged, "w") as f:
        for s in sessions:
            f.write(json.dumps(s) + "\n")
    # 3. judge
    tgen = tdis = done = 0
    bad = []
    if sessions:
        bad, done, tgen, tdis, err = tlc_trace(m.SPEC, merged, scratch, max(30, deadline + 30 - time.time()),
                                               heap=getattr(m, "HEAP", "12g"))
        if err is not None:
            if "out of memory" in err.lower() or "TLC timed out" in err:
                raise MachineryError("TLC trace validation: " + err)
            # a recorded value that the specification cannot even be evaluated on
            violations.append(dict(kind="unjudgeable", log=err))
        elif done != len(sessions):
            raise MachineryError("TLC finished %d of %d sessions" % (done, len(sessions)))
    elif not violations:
        raise MachineryError("the driver recorded nothing")
    findings = load_findings(pid)
    hit = {}
    for b in bad:
        s = sessions[b["s"] - 1]
        ev = s["ev"][b["l"] - 1] if 0 < b["l"] <= len(s["ev"]) else None
        for fd in findings:
            if finding_matches(fd, s, ev, b):
                hit.setdefault(fd["id"], [fd, 0])[1] += 1
                break
        else:
            violations.append(dict(kind="verdict", session=s["name"], index=b["l"], clause=b["clause"],
                                   expected=b.get("exp"), event=ev, init=s["init"],
                                   prefix=[] if getattr(m, "STATELESS", False) else s["ev"][:b["l"] - 1]))
    for fid in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, hit[fid][0]["what"]))
    wall = time.time() - t0
    samples = []
    if sessions:
        r2 = random.Random(seed)
        for s in r2.sample(sessions, min(3, len(sessions))):
            t = json.dumps(s)
            samples.append(s if len(t) < 1500 else t[:1500] + "...")
    cov = dict(
        states=sum(x["distinct"] for x in models) + tdis,
        transitions=sum(x["generated"] for x in models) + tgen,
        traces_validated_against_impl=len(sessions),
        events_judged=nev,
        models=[dict(model=x["module"], config=x["cfg"], distinct_states=x["distinct"], generated=x["generated"])
                for x in models],
        session_kinds=_kinds(sessions),
        op_counts=_ops(sessions),
        known_findings_seen={k: v[1] for k, v in hit.items()},
        samples=samples,
        seconds=dict(models=round(t_model, 1), driver=round(t_drive, 1), judge=round(wall - t_model - t_drive, 1)))
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(m, "LEVEL", "model_checking"), coverage=cov,
              assumptions=getattr(m, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if violations:
        od = os.path.join(OUT, pid)
        shutil.rmtree(od, ignore_errors=True)
        os.makedirs(od)
        fn = os.path.join(od, "violations.json")
        by = {}
        for v in violations:
            by.setdefault((v["kind"], v.get("clause")), []).append(v)
        json.dump([v for k in sorted(by, key=str) for v in by[k][:60]], open(fn, "w"), indent=1)
        for k, vs in sorted(by.items(), key=str):
            print("%s %s: %d" % (k[0], k[1], len(vs)))
        shown = 0
        seen = {}
        for v in violations:
            k = (v["kind"], v.get("clause"))
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 2 and shown < a.show:
                shown += 1
                t = dict(v)
                t["prefix"] = len(t.get("prefix", []))
                print(json.dumps(t)[:1800])
        print("VIOLATION property=%s replay=%s" % (pid, fn))
        return 1
    print("OK property=%s sessions=%d events=%d model_states=%d wall=%.1fs (models %.1f, driver %.1f)" % (
        pid, len(sessions), nev, sum(x["distinct"] for x in models), wall, t_model, t_drive))
    return 0


def _kinds(sessions):
    d = {}
    for s in sessions:
        k = s["name"].split("/")[0]
        d[k] = d.get(k, 0) + 1
    return d


def _ops(sessions):
    d = {}
    for s in sessions:
        for e in s["ev"]:
            k = str(e.get("op"))
            d[k] = d.get(k, 0) + 1
    return d


if __name__ == "__main__":
    if sys.argv[1] == "drive":
        drive_main(sys.argv[2:])
        sys.exit(0)
    try:
        rc = main(sys.argv[1:])
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
