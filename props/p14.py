"""P14  information along the ownership tree"""
import datetime
import random
SPEC = "InfoTreeTrace"
MC = [dict(name="t", module="InfoTreeMC", cfg="InfoTreeMC.cfg", gen=True, tiers=("quick",)),
      dict(name="t", module="InfoTreeMC", cfg="InfoTreeMC.cfg", gen=True, tiers=("thorough",)),
      dict(name="b", module="InfoTreeMC", cfg="InfoTreeMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 4, "thorough": 8}
NO = -999999
U = 0.25
BASE = "2010-06-30T23:59:50"
KEYS = ["ka", "kb", "time", "basetime", "attr"]


class Rig(object):
    def __init__(self, rec, rng, name, n, fields=True):
        import numpy as np
        import viscid
        self.np, self.v, self.rec, self.rng, self.n = np, viscid, rec, rng, n
        self.base = np.datetime64(BASE + ".000")
        crds = viscid.arrays2crds([np.arange(4.0), np.arange(3.0)])
        mk = [lambda: viscid.dataset.Dataset(), lambda: viscid.dataset.DatasetTemporal(),
              lambda: viscid.grid.Grid(), lambda: viscid.wrap_field(np.arange(12.0).reshape(4, 3), crds, name="f"),
              lambda: viscid.wrap_field(np.arange(12.0).reshape(4, 3), crds, name="g")]
        # fields own nothing but what is derived from them
        self.nodes = [rng.choice(mk if fields else mk[:3])() for _ in range(n)]
        self.used = list(range(1, n + 1))
        rec.begin(name, n=n, keys=KEYS)
        for nd in self.nodes:
            nd._info.pop("time", None)      # some are born at time 0

    def t64(self, x):
        return self.np.timedelta64(int(x) * 250, "ms")

    def spare(self, k):
        """numbers kept for nodes to be derived"""
        self.spares = self.used[-k:]
        self.used = self.used[:-k]
        for i in self.spares:
            self.nodes[i - 1] = None

    # ---- encoding
    def secs(self, v):
        v = float(v) / U
        return int(round(v)) if abs(v - round(v)) < 1e-6 else 888888

    def dt(self, v):
        us = (self.np.datetime64(v, "us") - self.np.datetime64(BASE, "us")).astype("i8")
        return self.secs(us * 1e-6)

    def td(self, v):
        if isinstance(v, datetime.timedelta):
            return self.secs(v.total_seconds())
        return self.secs(v.astype("m8[us]").astype("i8") * 1e-6)

    def enc(self, k, v):
        if v is None:
            return NO
        if k == "time":
            return self.secs(v) if isinstance(v, float) else 777777
        if k == "basetime":
            return self.dt(v) if isinstance(v, self.np.datetime64) else 777777
        return int(v)

    def own(self):
        res = []
        for nd in self.nodes:
            row = []
            for k in KEYS:
                if nd is None:
                    row.append(NO)
                elif k == "attr":
                    a = nd.__dict__.get("zattr", None)
                    row.append(NO if a is None else -1 if a is NotImplemented else a)
                else:
                    row.append(self.enc(k, nd._info.get(k, None)))
            res.append(row)
        return res

    def par(self):
        ids = {id(x): i + 1 for i, x in enumerate(self.nodes) if x is not None}
        return [[ids.get(id(p), 0) for p in nd.parents] if nd is not None else [] for nd in self.nodes]

    def ev(self, op, n, fn, **kw):
        try:
            r = fn()
            got = ["ok"] if r is None else r
        except Exception as e:
            got = ["exc"]
            kw["text"] = "%s: %s" % (type(e).__name__, str(e)[:100])
        self.rec.ev(op=op, n=n, got=got, own=self.own(), par=self.par(), **kw)

    def node(self, i):
        return self.nodes[i - 1]

    # ---- calls that change
    def link(self, n, p):
        c, q, v = self.node(n), self.node(p), self.v
        fn = lambda: q.prepare_child(c)
        if self.rng.random() < 0.6:
            if type(q) is v.dataset.Dataset and isinstance(c, v.tree.Node) and not isinstance(c, v.field.Field):
                fn = lambda: q.add(c, set_active=self.rng.random() < 0.5)
            elif isinstance(q, v.grid.Grid) and isinstance(c, v.field.Field):
                fn = lambda: q.add_field(c)
        def f():
            fn()
        self.ev("link", n, f, p=p)

    def unlink(self, n, p):
        self.ev("unlink", n, lambda: self.node(p).tear_down_child(self.node(n)), p=p)

    def val(self, k, v):
        if k == "time":
            return v * U
        if k == "basetime":
            d = self.base + self.t64(v)
            return self.rng.choice([d, d.astype("M8[us]").item(), str(d)])
        return v

    def set(self, n, k, v):
        nd = self.node(n)
        if k == "attr":
            x = NotImplemented if v == -1 else v
            fn = lambda: setattr(nd, "zattr", x)
        elif k == "basetime":
            fn = lambda: setattr(nd, "basetime", self.val(k, v))
        else:
            fn = lambda: nd.set_info(k, self.val(k, v))
        self.ev("set", n, fn, k=k, v=v)

    def update(self, n, k, v, fb):
        nd = self.node(n)
        x = self.base + self.t64(v) if k == "basetime" else self.val(k, v)
        if fb and self.rng.random() < 0.5:
            fn = lambda: nd.update_info(k, x)
        else:
            fn = lambda: nd.update_info(k, x, fallback=fb)
        self.ev("update", n, fn, k=k, v=v, fb=fb)

    def settime(self, n, kind, v):
        nd, np = self.node(n), self.np
        if kind == "s":
            x = self.rng.choice([v * U, np.float64(v * U), np.float32(v * U)])
            if v % 4 == 0:
                x = self.rng.choice([x, v // 4])
        elif kind == "td":
            x = self.t64(v)
            x = self.rng.choice([x, x.astype("m8[us]"), datetime.timedelta(milliseconds=250 * v)])
        else:
            d = self.base + self.t64(v)
            x = self.rng.choice([d, d.astype("M8[us]"), d.astype("M8[us]").item(), str(d), "UT" + str(d)])
        self.ev("settime", n, lambda: setattr(nd, "time", x), kind=kind, v=v, spelling=repr(x))

    def derive(self, n):
        import viscid
        f, d = self.node(n), self.spares.pop()
        how = self.rng.choice([0, 1, 2, 3, 4, 5] if len(f.shape) == 2 else [0, 1, 4, 5])

        def fn():
            if how == 0:
                r = f * 2.0
            elif how == 1:
                r = 1 - f
            elif how == 2:
                r = f[1:]
            elif how == 3:
                r = f["y=0"]
            elif how == 4:
                r = self.np.abs(f)
            else:
                r = f.wrap(self.np.zeros(f.shape))
            self.nodes[d - 1] = r
        self.ev("derive", n, fn, d=d, how=how)
        if self.nodes[d - 1] is None:
            raise RuntimeError("derive failed: %r" % self.rec.cur["ev"][-1])
        self.used.append(d)

    # ---- calls that ask
    def ask(self, op, n, **kw):
        nd, np, v, rng = self.node(n), self.np, self.v, self.rng
        V = lambda x: ["v", x]
        if op == "find":
            k, de = kw["k"], kw["def"]
            if de == NO:
                fn = lambda: V(self.enc(k, nd.find_info(k)))
            else:
                fn = lambda: V(self.enc(k, nd.find_info(k, self.dflt(k, de))))
        elif op == "owner":
            fn = lambda: V([i + 1 for i, x in enumerate(self.nodes) if x is nd.find_info_owner(kw["k"])][0])
        elif op == "get":
            k, de = kw["k"], kw["def"]
            if de == NO:
                fn = lambda: V(self.enc(k, nd.get_info(k)))
            else:
                fn = lambda: V(self.enc(k, nd.get_info(k, self.dflt(k, de))))
        elif op == "has":
            fn = lambda: V(bool(nd.has_info(kw["k"])))
        elif op == "all":
            def fn():
                d = nd.get_all_info()
                return V([self.enc(k, d.get(k)) for k in KEYS])
        elif op == "attr":
            fn = lambda: V(nd.find_attr("zattr") if kw["def"] == NO else nd.find_attr("zattr", kw["def"]))
        elif op == "time":
            fn = lambda: ["none"] if nd.time is None else V(self.enc("time", nd.time))
        elif op == "basetime":
            fn = lambda: V(self.enc("basetime", nd.basetime))
        elif op == "span":
            fn = lambda: V(self.td(rng.choice([nd.time_as_timedelta, nd.time_as_timedelta64])()))
        elif op == "date":
            fn = lambda: V(self.dt(rng.choice([nd.time_as_datetime, nd.time_as_datetime64])()))
        elif op == "todate":
            t = self.t64(kw["v"])
            t = rng.choice([t, t.astype("m8[us]"), datetime.timedelta(milliseconds=250 * kw["v"]), kw["v"] * U])
            fn = lambda: V(self.dt(nd.t2datetime64(t)))
        elif op == "fmt":
            de = rng.choice([None, "never"])

            def fn():
                s = nd.format_time("f") if de is None else nd.format_time("f", default=de)
                if s == ("Timeless" if de is None else de):
                    return ["none"]
                return V(self.secs(float(s)))
            if rng.random() < 0.5:
                def fn():
                    s = nd.format_time() if de is None else nd.format_time(default=de)
                    if s == ("Timeless" if de is None else de):
                        return ["none"]
                    return V(self.secs(float(s)))
        self.ev(op, n, fn, **kw)

    def dflt(self, k, d):
        return self.base + self.t64(d) if k == "basetime" else d * U if k == "time" else d


def randask(r, rng):
    n = rng.choice(r.used)
    op = rng.choice(["find", "find", "owner", "get", "has", "all", "attr", "time", "time", "basetime", "span", "date",
                     "date", "todate", "fmt"])
    d = rng.choice([NO, 13, 0])
    k = rng.choice(KEYS[:4])
    kw = {}
    if op in ("find", "get"):
        kw = {"k": k, "def": d}
    elif op in ("owner", "has"):
        kw = {"k": k}
    elif op == "attr":
        kw = {"def": d}
    elif op == "todate":
        kw = {"v": rng.randrange(-50, 1000)}
    r.ask(op, n, **kw)


def drive(rec, tier, rng, shard, nshards, gen):
    import vharness
    cap = 1500 if tier == "quick" else 20000
    for i, seq in enumerate(vharness.tours(gen["t"], random.Random(rng.random()), max_events=cap, maxlen=30)):
        r = Rig(rec, rng, "gen/%d" % i, 3, fields=False)
        k = rng.choice(["ka", "ka", "kb", "time", "basetime"])
        for lab in seq:
            if lab[0] in ("link", "unlink"):
                getattr(r, lab[0])(lab[1], lab[2])
            elif lab[0] == "set":
                r.set(lab[1], k, lab[3])
            else:
                r.update(lab[1], k, lab[3], lab[4])
        for n in r.used:
            r.ask("find", n, **{"k": k, "def": NO})
            r.ask("owner", n, k=k)
            r.ask("all", n)
    for i in range(60 if tier == "quick" else 1500):
        walk(rec, rng, "walk/%d" % i, 50)


def walk(rec, rng, name, n):
    k = rng.randrange(2, 8)
    r = Rig(rec, rng, name, k + 2)
    r.spare(2)
    scale = rng.choice([1, 1, 400, 4000])
    for _ in range(n):
        u = rng.random()
        a, b = rng.choice(r.used), rng.choice(r.used)
        v = rng.randrange(-9 if scale == 1 else 0, 40) * scale + rng.randrange(4)
        if u < 0.2 and a != b and not isinstance(r.node(b), r.v.field.Field):
            if a < b and rng.random() < 0.8:
                a, b = b, a
            if not isinstance(r.node(b), r.v.field.Field):
                r.link(a, b)
        elif u < 0.24:
            ps = r.par()[a - 1]
            b = rng.choice(ps) if ps and rng.random() < 0.8 else b
            if not isinstance(r.node(b), r.v.field.Field):
                r.unlink(a, b)
        elif u < 0.34:
            kk = rng.choice(["ka", "kb", "basetime", "attr"])
            r.set(a, kk, rng.choice([-1, v, v]) if kk == "attr" else v)
        elif u < 0.42:
            r.update(a, rng.choice(KEYS[:4]), v, rng.random() < 0.6)
        elif u < 0.55:
            r.settime(a, rng.choice(["s", "td", "date"]), v)
        elif u < 0.6 and r.spares and isinstance(r.node(a), r.v.field.Field):
            r.derive(a)
        else:
            randask(r, rng)
