"""P18  chunks and the parallel map"""
import os
import threading
SPEC = "WorkTrace"
MC = [dict(name="w", module="WorkMC", cfg="WorkMC.cfg", gen=True, tiers=("quick",)),
      dict(name="w", module="WorkMC", cfg="WorkMCbig.cfg", gen=True, tiers=("thorough",))]
SHARDS = {"quick": 4, "thorough": 8}


def work(a, plus=0):
    return 10 * a + plus


def two(a, b, plus=0):
    return 10 * a + (b - a) + plus


def whoami(a):
    return os.getpid()


class Oops(Exception):
    pass


def maybe(a, bad=()):
    if a in bad:
        raise Oops("bad%d" % a)
    return 10 * a


def nested(a):
    """a worker that needs workers itself"""
    import viscid
    return sum(viscid.parallel.map(2, work, [(a,), (0,)]))


def call(fn):
    try:
        return ["ok", fn()]
    except Exception as e:
        return ["exc", type(e).__name__ if not isinstance(e, Oops) else str(e), str(e)[:100]]


def chunks(rec, rng, n, k, size, name):
    import numpy as np
    import viscid
    from viscid import parallel as P
    kw = {} if not size else {"size": size}
    k0 = k if not size else rng.choice([None, 1, 3])
    rec.begin(name)
    ln = lambda q: [[int(x) for x in c] for c in q]
    rec.ev(op="slices", n=n, k=k, size=size, got=call(lambda: ln(P.chunk_slices(n, k0, **kw))))
    rec.ev(op="sizes", n=n, k=k, size=size, got=call(lambda: [int(x) for x in P.chunk_sizes(n, k0, **kw)]))
    how = rng.choice(["range", "list", "tuple", "array", "str", "2d"])
    seq = {"range": range(n), "list": list(range(n)), "tuple": tuple(range(n)), "array": np.arange(n),
           "str": "".join(chr(40 + i) for i in range(n)), "2d": np.arange(n).reshape(-1, 1)}[how]
    un = (lambda c: [ord(x) - 40 for x in c]) if how == "str" else (lambda c: [int(np.ravel(x)[0]) for x in c])
    mod = rng.choice([viscid, P])
    rec.ev(op="list", n=n, k=k, size=size, how=how,
           got=call(lambda: [un(c) for c in mod.chunk_list(seq, k0, **kw)]))
    if not size:
        rec.ev(op="inter", n=n, k=k, size=0,
               got=call(lambda: [list(range(n))[slice(*s)] for s in P.chunk_interslices(k)]))


class Gate(object):
    """tasks that end when they are told to"""
    def __init__(self, n):
        self.cv = threading.Condition()
        self.running, self.may = set(), set()

    def task(self, i, a):
        with self.cv:
            self.running.add(i)
            self.cv.notify_all()
            self.cv.wait_for(lambda: i in self.may, timeout=60)
            self.running.discard(i)
            self.cv.notify_all()
        return 10 * a

    def let(self, i):
        with self.cv:
            self.may.add(i)
            self.cv.notify_all()
            self.cv.wait_for(lambda: i not in self.running, timeout=30)

    def seen(self, want):
        """who runs, once that is at least so many (a too short list is what it is after ten seconds)"""
        with self.cv:
            self.cv.wait_for(lambda: len(self.running) >= want, timeout=10)
            return sorted(self.running)


def schedule(rec, rng, n, w, order, name):
    """a map of n tasks over w workers whose tasks finish in this order"""
    from viscid import parallel as P
    rec.begin(name)
    g = Gate(n)
    args = [rng.randrange(1, 50) for _ in range(n)]
    out = []
    how = rng.choice(["map", "map", "async"])

    def run():
        tasks = ((i + 1, args[i]) for i in range(n))
        if how == "map":
            out.append(call(lambda: P.map(rng.choice([w, str(w), " %d " % w]), g.task, tasks, threads=True)))
        else:
            def fn():
                p, r = P.map_async(w, g.task, list(tasks), threads=True)
                q = r.get(60)
                p.join()
                return q
            out.append(call(fn))
    th = threading.Thread(target=run)
    th.start()
    base = dict(n=n, k=1, size=0)
    left = n
    rec.ev(op="go", w=w, running=g.seen(min(w, left)), how=how, **base)
    for i in order:
        g.let(i)
        left -= 1
        rec.ev(op="finish", i=i, running=g.seen(min(w, left)), **base)
    with g.cv:
        g.may |= set(range(1, n + 1))
        g.cv.notify_all()
    th.join(90)
    rec.ev(op="end", args=args, got=out[0] if out else ["exc", "never-ends", ""], **base)


def drive(rec, tier, rng, shard, nshards, gen):
    import multiprocessing as mp
    import viscid
    from viscid import parallel as P
    import vharness
    mx, mk = (17, 7) if tier == "quick" else (45, 14)
    m = 0
    for n in range(mx):
        for k in range(1, mk):
            m += 1
            if m % nshards == shard:
                chunks(rec, rng, n, k, 0, "chunks/%d/%d" % (n, k))
                if n:
                    chunks(rec, rng, n, 1, k, "size/%d/%d" % (n, k))
    # every schedule of the model
    groups = {}
    for ln in gen["w"]:
        if ln[0] != "init":
            groups.setdefault((ln[3], ln[4]), []).append(ln[:3])
    m = 0
    for (n, w), lines in sorted(groups.items()):
        tos = {l[2] for l in lines}
        roots = sorted({l[0] for l in lines} - tos)
        for seq in vharness.tours([["init", roots[0]]] + lines, rng, max_events=400 if tier == "quick" else 4000):
            m += 1
            if m % nshards == shard:
                schedule(rec, rng, n, w, [a[1] for a in seq], "sched/%d/%d/%d" % (n, w, m))
    # maps at once, in processes and threads
    pool = mp.Pool(2)
    ways = [("serial", dict(nr=1)), ("sub", dict(nr=1, force_subprocess=True)), ("proc", dict(nr=3)),
            ("thr", dict(nr=3, threads=True)), ("thr1", dict(nr=1, threads=True)), ("pool", dict(nr=1, pool=pool)),
            ("all", dict(nr="all")), ("auto", dict(nr=" AUTO ", threads=True)), ("free", dict(nr=2, daemonic=False))]
    for k in range(3 if tier == "quick" else 30):
        for wname, way in ways:
            way = dict(way)
            nr = way.pop("nr")
            n = rng.choice([0, 1, 2, 5, 9])
            args = [rng.randrange(50) for _ in range(n)]
            kwv = rng.choice([0, 3])
            kw = {"args_kw": {"plus": kwv}} if kwv else {}
            rec.begin("map/%s/%d" % (wname, k))
            f = rng.choice([work, two])
            tup = [(a,) if f is work else (a, a) for a in args]
            it = rng.choice([lambda: list(tup), lambda: iter(tup), lambda: zip(*zip(*tup)) if tup else iter(())])
            base = dict(n=n, k=1, size=0)
            rec.ev(op="map", args=args, kw=kwv, way=wname, got=call(lambda: list(P.map(nr, f, it(), **dict(way, **kw)))), **base)
            me = os.getpid()
            pids = call(lambda: list(P.map(nr, whoami, [(a,) for a in args], **way)))
            if pids[0] == "ok":
                rec.ev(op="where", here=sum(1 for p in pids[1] if p == me),
                       own=wname in ("sub", "proc", "pool", "all", "free"), way=wname, **base)
            bad = sorted({a for a in args if rng.random() < 0.4})
            if bad:
                rec.ev(op="fail", errs=["bad%d" % b for b in bad], way=wname,
                       got=call(lambda: P.map(nr, maybe, [(a,) for a in args], args_kw={"bad": bad}, **way)), **base)
            if wname == "free":
                rec.ev(op="map", args=args, kw=0, way="nested",
                       got=call(lambda: list(P.map(nr, nested, [(a,) for a in args], **way))), **base)
    pool.terminate()
    pool.join()
