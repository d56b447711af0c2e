"""P40  coordinate systems at one moment agree with each other"""
SPEC = "CotrTrace"
STATELESS = True
MC = [dict(name="c", module="CotrMC", cfg="CotrMC.cfg", tiers=("quick",)),
      dict(name="c", module="CotrMC", cfg="CotrMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 4, "thorough": 8}
S = 10000
SYS = ["gei", "geo", "gse", "gsm", "sm", "mag", "mhd"]
HELIO = ["hae", "hee", "heeq"]
TRIPLES = [(1, 2, 2, 3), (2, 3, 6, 7), (0, 3, 4, 5), (1, 4, 8, 9), (4, 4, 7, 9), (0, 0, 1, 1), (0, 5, 12, 13), (2, 6, 9, 11)]


class Run(object):
    def __init__(self, rec, rng):
        import numpy as np
        import viscid
        from viscid import cotr
        self.np, self.v, self.c, self.rec, self.rng = np, viscid, cotr, rec, rng

    def num(self, x, k):
        a = self.np.asarray(x, dtype="f8") * k
        if not self.np.all(self.np.isfinite(a)) or self.np.any(self.np.abs(a) > 2e9):
            raise RuntimeError("not a number")
        return self.np.rint(a).astype("i8").tolist()

    def call(self, fn):
        try:
            return ["ok"] + list(fn())
        except Exception as e:
            return ["exc", type(e).__name__, str(e)[:100]]

    # -- when ---------------------------------------------------------------
    def when(self):
        import datetime
        rng = self.rng
        d = datetime.datetime(1952, 1, 1) + datetime.timedelta(days=rng.randrange(0, 26600), seconds=rng.choice([0, 43200, 86399, rng.randrange(86400)]))
        if rng.random() < 0.15:
            d = datetime.datetime(rng.choice([1955, 1970, 1995, 2000, 2015]), 1, 1, rng.randrange(24))
        if rng.random() < 0.1:
            d = datetime.datetime(1967, rng.choice([1, 12, 6]), rng.choice([3, 30]), rng.randrange(24))
        day = (d.date() - datetime.date(2000, 1, 1)).days
        return d, 2 * day - 1, d.hour * 3600 + d.minute * 60 + d.second

    def form(self, d):
        np, rng = self.np, self.rng
        iso = d.strftime("%Y-%m-%dT%H:%M:%S")
        return rng.choice([lambda: iso, lambda: iso + ".0", lambda: d, lambda: np.datetime64(iso), lambda: np.datetime64(iso, "us"),
                           lambda: d.strftime("%Y-%m-%d %H:%M:%S"), lambda: d.strftime("%Y:%m:%d:%H:%M:%S"), lambda: np.datetime64(iso, "ns")])()

    def angle(self):
        rng = self.rng
        return rng.choice([0, 1000 * rng.randrange(-90, 91), rng.randrange(-60000, 60000), 90000, -90000])

    def crd(self, name):
        """ways to name a system"""
        rng = self.rng

        class Has(object):
            def __init__(self, n):
                self.__crd_system__ = n
        r = rng.random()
        if r < 0.6:
            return name
        if r < 0.8:
            return rng.choice([name.upper(), " %s " % name, name.capitalize()])
        if r < 0.9:
            o = Has(name)
            setattr(o, "__crd_system__", name)
            return o
        f = self.v.zeros([2, 2, 2])
        f.set_info("crd_system", name)
        return f

    # -- an object and what it answers -----------------------------------------
    def session(self):
        np, v, c, rng = self.np, self.v, self.c, self.rng
        kw = {}
        e = dict(h=0, s=0, quiet=False, tilt=[], gsm=[], ang=[], m=[], msys="", back=[0, 0, 0])
        d, e["h"], e["s"] = self.when()
        how = rng.choice(["time"] * 4 + ["quiet"] * 2 + ["given"] * 3 + ["timegiven"] * 2 + ["moment"] * 2)
        via = "ctor"
        if how in ("time", "timegiven"):
            kw["time"] = self.form(d)
        else:
            e["quiet"] = True
            if how == "quiet" or rng.random() < 0.2:
                kw["time"] = rng.choice(["1967-01-01", "1967-01-01T00:00:00.0", np.datetime64("1967-01-01")])
        if how in ("given", "timegiven"):
            a, b = self.angle(), rng.choice([1, 4]) * self.angle() // 2
            which = rng.choice(["both", "both", "tilt", "gsm"])
            if which != "gsm":
                kw["dip_tilt"] = a / 1000.0
                e["tilt"] = [a]
            if which != "tilt":
                kw["dip_gsm"] = b / 1000.0
                e["gsm"] = [b]
        if how in ("time", "given") and rng.random() < 0.3:
            kw["rdim"] = rng.choice([3, 4])
        if how == "time" and rng.random() < 0.2:
            kw["notilt1967"] = rng.random() < 0.5
        if how == "quiet" and rng.random() < 0.25:
            import datetime
            kw["time"], kw["notilt1967"] = "1967-01-01T00:00:00", False
            e["quiet"], e["s"] = False, 0
            e["h"] = 2 * (datetime.date(1967, 1, 1) - datetime.date(2000, 1, 1)).days - 1
        if how == "moment":
            t = rng.choice(TRIPLES)
            u = list(t[:3])
            rng.shuffle(u)
            u = [x * rng.choice([1, -1]) for x in u]
            e["m"], e["msys"] = [u, t[3]], rng.choice(["gse", "gse", "mhd"])

        def make():
            if how == "moment":
                k = rng.choice([1, 1.0, 3, 0.25])
                m = [k * x for x in u]
                m = np.array(m) if rng.random() < 0.5 else m
                return c.dipole_moment2cotr(m, crd_system=self.crd(e["msys"])) if e["msys"] == "mhd" or rng.random() < 0.5 else c.dipole_moment2cotr(m)
            if rng.random() < 0.5:
                return c.Cotr(**kw)
            via = rng.choice(["dict", "obj", "info", "infodict", "field", "default", "parent"])
            if how == "time" and set(kw) == {"time"} and rng.random() < 0.6:
                via = rng.choice(["astime", "infotime", "default"])
            if how == "given" and e["tilt"] + e["gsm"] == [0, 0] and "rdim" not in kw:
                return c.as_cotr(None) if rng.random() < 0.5 else c.as_cotr()
            if via == "dict":
                return c.as_cotr(dict(kw))
            if via == "obj":
                return c.as_cotr(c.Cotr(**kw))
            if via == "astime":
                return c.as_cotr(kw["time"])
            if via == "default":
                return c.as_cotr(object(), default=c.Cotr(**kw))
            f = v.zeros([2, 2, 2])
            if via == "infotime":
                f.set_info("dipoletime", kw["time"])
            elif via == "infodict":
                f.set_info("cotr", dict(kw))
            elif via == "parent":
                g = v.dataset.Dataset(name="ds")
                g.set_info("cotr", c.Cotr(**kw))
                f = v.grid.Grid(name="g")
                g.add(f)
            else:
                f.set_info("cotr", c.Cotr(**kw))
                if rng.random() < 0.5:
                    f.set_info("dipoletime", "2004-05-06T07:08:09")
            return c.as_cotr(f)
        r = self.call(lambda: [make()])
        ops = []
        if r[0] == "ok":
            o = r[1]
            if how == "moment":
                e["tilt"], e["gsm"] = [self.num(o.dip_tilt, 1000)], [self.num(o.dip_gsm, 1000)]
                e["back"] = self.num(o.get_dipole_moment("gse", strength=1.0), S)
            late = rng.random() < 0.5
            if not late and how != "moment" and not e["quiet"]:
                g = self.call(lambda: [self.num(o.get_dipole_angles(), 1000)])
                e["ang"] = g[1] if g[0] == "ok" else []
            for _ in range(rng.randrange(3, 8)):
                ops.append(self.query(o, e, how, kw))
            if late and how != "moment" and not e["quiet"]:
                g = self.call(lambda: [self.num(o.get_dipole_angles(), 1000)])
                e["ang"] = g[1] if g[0] == "ok" else []
        self.rec.ev(op="cotr", made=["ok"] if r[0] == "ok" else r, ops=ops, **e)

    def shape(self, x):
        return [int(n) for n in self.np.shape(x)]

    def query(self, o, e, how, kw):
        np, c, rng = self.np, self.c, self.rng
        q = rng.choice(["mat", "vec", "vec", "vec", "wxyz", "mom", "ang"])
        a, b = rng.choice(SYS), rng.choice(SYS)
        if how == "time" and rng.random() < 0.1:
            a = rng.choice(HELIO + ["foo"])
            b = a if rng.random() < 0.4 else rng.choice(SYS + HELIO)
            if rng.random() < 0.5:
                a, b = b, a
            q = rng.choice(["mat", "vec"])
        given = bool(e["tilt"] or e["gsm"])
        if given and e["quiet"]:
            a, b = [rng.choice([s for s in SYS if s != "mag"]) for _ in range(2)]
        plain = how != "moment" and set(kw) <= {"time", "notilt1967"} and "time" in kw
        A, B = self.crd(a), self.crd(b)
        rec = dict(q=q)
        if {"from": a} and q in ("mat", "vec", "wxyz"):
            rec["from"], rec["to"] = a, b
        if q == "mat":
            def fn():
                m = np.asarray(o.get_transform_matrix(A, B))
                if m.shape not in ((3, 3), (4, 4)) or m.shape[0] != o.rdim:
                    raise RuntimeError("shape")
                n = self.num(m, S)
                side = [] if len(n) == 3 else [n[0][3], n[1][3], n[2][3]] + n[3]
                return [[r[:3] for r in n[:3]], side]
        elif q == "vec":
            single = rng.random() < 0.4
            pts = [[rng.randrange(-40, 41) for _ in range(3)] for _ in range(1 if single else rng.randrange(1, 5))]
            arr = np.array(pts, dtype=rng.choice(["f8", "i8", "f8"])).T
            arr = arr[:, 0] if single else arr
            rec["pts"], rec["shape"] = pts, self.shape(arr)
            before = arr.copy()
            arg = arr.tolist() if rng.random() < 0.3 else arr

            def fn():
                if plain and rng.random() < 0.3:
                    r = c.cotr_transform(kw["time"], A, B, arg, notilt1967=kw.get("notilt1967", True))
                else:
                    r = o.transform(A, B, arg)
                if not np.array_equal(before, arr):
                    raise RuntimeError("points changed")
                return [self.num(np.asarray(r).reshape(3, -1).T, 100), self.shape(r)]
        elif q == "wxyz":
            def fn():
                if kw.get("rdim") == 4 or rng.random() < 0.4:
                    m = o.get_transform_matrix(A, B)[:3, :3]
                    r = c.get_rotation_wxyz(m, quick=rng.random() < 0.5, check_inverse=rng.random() < 0.7)
                else:
                    r = o.get_rotation_wxyz(A, B)
                return [[self.num(r[0], 1000), self.num(r[1:], S)]]
        elif q == "mom":
            k = rng.choice([1, 2, 5])
            rec["to"], rec["k"] = b, k

            def fn():
                if how == "given" and b in ("gse", "gsm", "sm", "mhd") and e["tilt"] and e["gsm"] and rng.random() < 0.4 and "rdim" not in kw:
                    r = c.get_dipole_moment_ang(dip_tilt=e["tilt"][0] / 1000., dip_gsm=e["gsm"][0] / 1000., crd_system=B, strength=k)
                elif plain and rng.random() < 0.4:
                    r = c.get_dipole_moment(kw["time"], B, strength=k, notilt1967=kw.get("notilt1967", True))
                elif b == "gse" and rng.random() < 0.5:
                    r = o.get_dipole_moment(strength=k)
                else:
                    r = o.get_dipole_moment(B, strength=k)
                if np.shape(r) != (3,):
                    raise RuntimeError("shape")
                return [self.num(r, S)]
        else:
            def fn():
                if plain and rng.random() < 0.4:
                    r = c.get_dipole_angles(kw["time"], notilt1967=kw.get("notilt1967", True))
                elif rng.random() < 0.5:
                    r = (o.dip_tilt, o.dip_gsm)
                else:
                    r = o.get_dipole_angles()
                return [self.num(r, 1000)]
        rec["got"] = self.call(fn)
        return rec

    # -- small things ------------------------------------------------------------
    def rot(self):
        np, c, rng = self.np, self.c, self.rng
        ax = rng.randrange(3)
        a = self.angle() * rng.choice([1, 3])
        want = "ok"
        axis = rng.choice([ax, "xyz"[ax], "XYZ"[ax], " %s " % "xyz"[ax]])
        rdim = rng.choice([3, 3, 4, 2] if ax == 2 else [3, 4])
        r = rng.random()
        if r < 0.1:
            axis, want = rng.choice(["q", 3, "xy"]), "bad"
        elif r < 0.15:
            rdim, want = 5, "bad"
        args = [a / 1000.0, axis]
        if axis == "z" and rng.random() < 0.5:
            args = args[:1]
        got = self.call(lambda: [self.num(c.make_rotation(*args, rdim=rdim) if rdim != 3 or rng.random() < 0.5 else c.make_rotation(*args), S)])
        self.rec.ev(op="rot", a=a, axis=ax + 1, rdim=rdim, want=want, got=got)

    def shift(self):
        np, c, rng = self.np, self.c, self.rng
        p, w = [rng.randrange(-9, 10) for _ in range(3)], [rng.randrange(-9, 10) for _ in range(3)]

        def fn():
            t, it = c.make_translation([0.5 * x for x in w] if True else w)
            x = np.array([0.5 * y for y in p] + [1.0])
            out = []
            for m in (t, it):
                y = np.dot(m, x)
                out.append(self.num(y[:3], 2) + [int(y[3])])
            return out
        self.rec.ev(op="shift", p=p, v=w, got=self.call(fn))

    def nvec(self):
        np, c, rng = self.np, self.c, self.rng
        n, k = rng.randrange(1, 6), rng.randrange(1, 4)
        rows = [[rng.randrange(-9, 10) for _ in range(k)] for _ in range(n)]
        ndim = rng.randrange(2, 6)
        init = [rng.randrange(5) for _ in range(ndim)]
        kw = {}
        if ndim == 4 and rng.random() < 0.6:
            init = [0, 0, 0, 1]
        else:
            kw = dict(ndim=ndim, init_vals=init)
        flat = k == 1 and rng.random() < 0.6

        def fn():
            a = np.array(rows, dtype=rng.choice(["f8", "i8"]))
            a = a[:, 0] if flat else a
            r = c.as_nvec(a if rng.random() < 0.5 else a.tolist(), **kw)
            if r.ndim != a.ndim:
                raise RuntimeError("shape")
            return [self.num(r.reshape(r.shape[0], -1), 1)]
        self.rec.ev(op="nvec", rows=rows, ndim=ndim, init=init, got=self.call(fn))

    def system(self):
        np, c, rng, v = self.np, self.c, self.rng, self.v
        name = rng.choice(SYS + HELIO + ["Foo", "unknown"])
        k = rng.randrange(5)
        if k == 0:
            arg, want = self.crd(name), name.lower()
            fn = lambda: [c.as_crd_system(arg)]
        elif k == 1:
            want = name.lower()
            fn = lambda: [c.as_crd_system(3.5, default=self.crd(name))]
        elif k == 2:
            want = "exc"
            fn = lambda: [c.as_crd_system(rng.choice([3.5, [1], {}]))]
        elif k == 3:
            want = "gse"
            fn = lambda: [c.as_crd_system(v.zeros([2, 2, 2]), "gse")]
        else:
            want = "exc"
            fn = lambda: [c.as_crd_system(v.zeros([2, 2, 2]))]
        self.rec.ev(op="system", want=want, got=self.call(fn))

    def cannot(self):
        np, c, rng, v = self.np, self.c, self.rng, self.v
        k = rng.randrange(4)
        if k == 0:
            want, fn = "TypeError", lambda: [c.as_cotr(rng.choice([object(), v.zeros([2, 2, 2])])).rdim]
        elif k == 1:
            m = np.eye(3)
            m[rng.randrange(3)] *= 2
            want, fn = "ValueError", lambda: [0 * len(c.get_rotation_wxyz(m))]
        elif k == 2:
            want, fn = "ValueError", lambda: [c.dipole_moment2cotr([0, 0, -1.0], crd_system=rng.choice(["gsm", "sm", "geo"])).rdim]
        else:
            want, fn = "ValueError", lambda: [len(c.Cotr("2001-02-03").transform("gse", "bar", [1, 2, 3]))]
        self.rec.ev(op="cannot", want=want, got=self.call(fn))


def drive(rec, tier, rng, shard, nshards, gen):
    r = Run(rec, rng)
    n = 250 if tier == "quick" else 1500
    for k in range(n):
        rec.begin("p40/%d" % k)
        for _ in range(5):
            r.session()
        for _ in range(2):
            r.rot()
        r.shift()
        r.nvec()
        r.system()
        if rng.random() < 0.4:
            r.cannot()
