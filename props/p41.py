"""P41  a dipole is the same one in its field, its masks and its field lines"""
SPEC = "DipoleTrace"
STATELESS = True
MC = [dict(name="d", module="DipoleMC", cfg="DipoleMC.cfg", tiers=("quick",)),
      dict(name="d", module="DipoleMC", cfg="DipoleMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 4, "thorough": 8}
K = 10000


class Run(object):
    def __init__(self, rec, rng):
        import numpy as np
        import viscid
        self.np, self.v, self.rec, self.rng = np, viscid, rec, rng

    def num(self, x, k):
        np = self.np
        a = np.asarray(x, dtype="f8") * k
        a = np.where(np.isfinite(a) & (np.abs(a) < 1e9), a, 999999999)
        return np.rint(a).astype("i8").tolist()

    def call(self, fn):
        try:
            return ["ok"] + list(fn())
        except Exception as e:
            return ["exc", type(e).__name__, str(e)[:100]]

    # -- pieces ------------------------------------------------------------
    def moment(self):
        """(m, strength, still, argument)"""
        np, rng = self.np, self.rng
        m = rng.choice([[0, 0, -1], [0, 0, 2], [1, 0, 0], [0, -3, 0], [rng.randrange(-4, 5) for _ in range(3)], [1, 2, -2]])
        if not any(m):
            m = [0, 0, -1]
        k = rng.choice([0, 0, 1, 2, 5])
        if rng.random() < 0.12:
            when = rng.choice(["1967-01-01T00:00:00", "2004-06-21T16:00:00", "2010-12-21T04:30:00", "1998-03-20T11:00:00"])
            self.ang = self.num(self.v.get_dipole_angles(when), 1000)
            when = rng.choice([when, np.datetime64(when)])
            return [0, 0, -1], k or 2, True, when
        arg = rng.choice([list, tuple, lambda x: np.array(x, dtype="f8"), np.array, lambda x: [float(y) for y in x]])(m)
        return m, k, False, arg

    def axis(self, n):
        """node coordinates in halves: even, so that cells are centered on integers of them"""
        rng = self.rng
        a = [2 * rng.randrange(-5, 2)]
        for _ in range(n - 1):
            a.append(a[-1] + rng.choice([2, 2, 4]))
        return a

    def grid(self, center):
        rng = self.rng
        n = [rng.choice([2, 3, 4, 4, 5]) for _ in range(3)]
        if rng.random() < 0.3:
            n = [rng.choice([3, 4])] * 3
        if n == [2, 2, 2]:
            n[rng.randrange(3)] = 3
        axes = [self.axis(k) for k in n]
        return axes

    def field(self, axes, center, vec, layout=None, value=0.0, dtype="f8"):
        np, v = self.np, self.v
        n = [len(a) - (center != "node") for a in axes]
        layout = layout or self.rng.choice(["interlaced", "flat"])
        shape = n if not vec else (n + [3] if layout == "interlaced" else [3] + n)
        return v.wrap_field(np.full(shape, value, dtype=dtype), v.arrays2crds([np.array(a, dtype="f8") / 2 for a in axes]),
                            fldtype="vector" if vec else "scalar", center=center, layout=layout, name="b")

    def comps(self, f, k):
        return [self.num(f[c].data, k) for c in "xyz"] if f.nr_comps else [self.num(f.data, k)]

    def band(self):
        rng = self.rng
        lo = rng.choice([0, 0, rng.randrange(0, 4) * 2 + 1])
        hi = lo + 2 * rng.randrange(1, 8) if lo else 2 * rng.randrange(1, 9) + 1
        if rng.random() < 0.15:
            hi = 0
        return lo, hi

    def shell(self, f, lo, hi):
        """positions are halves and the borders odd halves of those"""
        kw = {}
        if lo or self.rng.random() < 0.5:
            kw["rmin"] = lo / 4.0
        if hi:
            kw["rmax"] = hi / 4.0
        return self.v.make_spherical_mask(f, **kw)

    # -- the events ----------------------------------------------------------
    def fill(self):
        np, v, rng = self.np, self.v, self.rng
        m, k, still, arg = self.moment()
        e = dict(u=2, m=m, strength=k, timed=still, ang=self.ang if still else [], tsys="gse", made=False, sys="", mask="none", lo=0, hi=0, before=0)
        kw = {} if k == 0 else dict(strength=float(k) if rng.random() < 0.5 else k)
        if rng.random() < 0.25 and not still:
            e["made"], e["center"] = True, rng.choice(["node", "cell"])
            cnt, lo, step = [[rng.choice([2, 3, 4]) for _ in range(3)], [2 * rng.randrange(-3, 1) for _ in range(3)], [rng.choice([2, 4]) for _ in range(3)]]
            pts = [c + (e["center"] == "cell") for c in cnt]
            e["axes"] = [[a + s * i for i in range(q)] for a, s, q in zip(lo, step, pts)]
            e["sys"] = rng.choice(["gse", "gse", "mhd"])
            kw.update(l=[x[0] / 2.0 for x in e["axes"]], h=[x[-1] / 2.0 for x in e["axes"]], n=cnt, center=e["center"])
            if e["sys"] != "gse" or rng.random() < 0.5:
                kw["crd_system"] = e["sys"]
            if rng.random() < 0.2 and k:
                e["m"], arg = [0, 0, -1], None
            if rng.random() < 0.3:
                kw["dtype"] = rng.choice(["f4", "f8"])
            if arg is not None:
                kw["m"] = arg

            def go():
                b = v.make_dipole(**kw)
                mom = v.as_cotr(b).get_dipole_moment(crd_system=v.as_crd_system(b), strength=1.0)
                return [self.comps(b, K), b.center, v.as_crd_system(b), self.num(mom, K)]
        else:
            e["center"] = rng.choice(["node", "cell", "face", "edge"])
            e["axes"] = self.grid(e["center"])
            e["before"] = rng.choice([0, 7, -2])
            b = self.field(e["axes"], e["center"], True, value=float(e["before"]), dtype=rng.choice(["f8", "f8", "f4"]))
            if still:
                e["tsys"] = rng.choice(["gse", "mhd", "sm", "gsm"])
                b.set_info("crd_system", e["tsys"])
            if rng.random() < 0.6:
                e["mask"] = rng.choice(["vec", "scalar"])
                e["lo"], e["hi"] = self.band()
            if rng.random() < 0.9 or still or e["m"] != [0, 0, -1]:
                kw["m"] = arg

            def go():
                if e["mask"] != "none":
                    mk = self.shell(b if e["mask"] == "vec" else b["x"], e["lo"], e["hi"])
                    if rng.random() < 0.2:
                        mk = mk.astype("i4") if hasattr(mk, "astype") else mk
                    kw["mask"] = mk
                r = v.fill_dipole(b, **kw)
                return [self.comps(r, K), r.center, r is b]
            if "m" not in kw and not k:
                kw["m"] = arg
        e["got"] = self.call(go)
        self.rec.ev(op="fill", **e)

    def calc(self):
        np, v, rng = self.np, self.v, self.rng
        m, k, still, arg = self.moment()
        u = rng.choice([1, 2])
        n = rng.choice([1, 2, 3, 3, 4, 7])
        pts = [[rng.randrange(-6 * u, 6 * u + 1) for _ in range(3)] for _ in range(n)]
        pts = [p if any(p) else [u, u, u] for p in pts]
        one = n == 1 and rng.random() < 0.7
        dt = rng.choice(["f8", "f8", "f4"] + (["i8"] if u == 1 else []))
        a = (np.array(pts) / float(u)).astype(dt)
        a = a[0] if one else a
        a = a.tolist() if rng.random() < 0.25 else a
        kw = {} if k == 0 else dict(strength=k)
        if rng.random() < 0.2 and dt != "i8":
            kw["dtype"] = rng.choice(["f4", "f8"])
        if still and rng.random() < 0.7:
            kw["crd_system"] = rng.choice(["gse", "mhd", "sm", "gsm"])
        e = dict(u=u, m=m, strength=k, timed=still, ang=self.ang if still else [], tsys=kw.get("crd_system", "gse"), pts=pts, one=one)

        def go():
            r = np.asarray(v.calc_dip(a, m=arg, **kw))
            return [self.num(r.reshape(-1, 3), K), list(r.shape)]
        e["got"] = self.call(go)
        self.rec.ev(op="calc", **e)

    def mask(self):
        np, v, rng = self.np, self.v, self.rng
        center = rng.choice(["node", "cell", "face", "edge"])
        axes = self.grid(center)
        vec = rng.random() < 0.6
        f = self.field(axes, center, vec)
        lo, hi = self.band()
        e = dict(u=2, axes=axes, center=center, vec=vec, lo=lo, hi=hi)

        def go():
            mk = self.shell(f, lo, hi)
            c = self.comps(mk, 1)
            return [c * 3 if vec and len(c) == 1 else c, "bool" if mk.dtype == bool else str(mk.dtype)]
        e["got"] = self.call(go)
        self.rec.ev(op="mask", **e)

    def region(self):
        np, v, rng = self.np, self.v, self.rng
        n = [rng.choice([2, 3, 3, 4]) for _ in range(3)]
        if rng.random() < 0.3:
            n = [3, 3, 3]
        axes = [[2 * i for i in range(k)] for k in n]
        vec = rng.random() < 0.6
        nc = 3 if vec else 1
        mk_fld = lambda lay: self.field(axes, "node", vec, layout=lay)
        lay = rng.choice(["interlaced", "flat"])

        def rnd(f):
            f.data[...] = np.array([rng.randrange(-9, 10) for _ in range(f.data.size)]).reshape(f.data.shape)
            return f
        a, b, out = rnd(mk_fld(lay)), rnd(mk_fld(lay)), rnd(mk_fld(lay))
        al, be = rng.choice([2, 1, 0, -3, 4]), rng.choice([2, 1, 0, -3, 4])
        bn = rng.choice([None, None, None, 0, 5])
        mode = rng.choice(["none", "scalar", "scalar", "vec", "array"])
        e = dict(axes=axes, alpha=al, beta=be, a=self.comps(a, 1), b=[] if bn is not None else self.comps(b, 1), bnum=bn or 0,
                 out=self.comps(out, 1), mask=[])
        if mode == "none":
            mask = None
        elif mode == "array" and not vec:
            mask = np.array([rng.random() < 0.5 for _ in range(a.data.size)]).reshape(n)
            e["mask"] = [self.num(mask, 1)]
        else:
            isv = vec and mode == "vec"
            mask = self.field(axes, "node", isv, layout=rng.choice(["interlaced", "flat"]))
            mask.data[...] = np.array([rng.random() < 0.5 for _ in range(mask.data.size)]).reshape(mask.data.shape)
            e["mask"] = self.comps(mask, 1)
            mask = mask.astype(rng.choice(["bool", "i4"]))
        kw = {}
        if al != 2 or rng.random() < 0.5:
            kw["alpha"] = al / 2.0
        if be != 2 or rng.random() < 0.5:
            kw["beta"] = be / 2.0
        to = rng.choice(["out", "self", "b"])
        if mask is None and rng.random() < 0.5:
            to = "new"
        if to == "self":
            e["out"] = e["a"]
        if to == "b":
            if bn is None:
                e["out"] = e["b"]
            else:
                to = "out"
        if to == "new":
            e["out"] = []
        dst = dict(out=out, self=a, b=b, new=None)[to]

        def go():
            r = v.set_in_region(a, b if bn is None else bn, mask=mask, out=dst, **kw)
            return [self.comps(r, 2), r is dst]
        e["got"] = self.call(go)
        self.rec.ev(op="region", **e)

    # -- field lines -----------------------------------------------------------
    def where(self):
        np, v, rng = self.np, self.v, self.rng
        u = rng.choice([1, 2, 4])
        n = rng.choice([1, 2, 3, 4])
        pts = []
        while len(pts) < n:
            p = [rng.choice([0, rng.randrange(-4 * u, 4 * u + 1), rng.randrange(-8 * u, 8 * u + 1)]) for _ in range(3)]
            if sum(x * x for x in p) >= u * u:
                pts.append(p)
        e = dict(u=u, pts=pts, mu=0, psi=0)
        kw = {}
        e["sys"] = rng.choice(["gse", "gse", "sm", "gsm", "mhd"])
        if rng.random() < 0.5:
            e["mu"], e["psi"] = 1000 * rng.randrange(-60, 61), 1000 * rng.randrange(-60, 61)
            c = dict(dip_tilt=e["mu"] / 1000.0, dip_gsm=e["psi"] / 1000.0)
            kw["cotr"] = c if rng.random() < 0.5 else v.Cotr(**c)
        if e["sys"] != "gse" or rng.random() < 0.5:
            kw["crd_system"] = e["sys"]
        a = np.array(pts, dtype="f8").T / u
        if u == 1 and rng.random() < 0.3:
            a = np.array(pts).T
        if n == 1 and rng.random() < 0.5:
            a = a[:, 0]
        if rng.random() < 0.2:
            a = a.tolist()
        return e, a, kw

    def rows(self, r, k):
        np = self.np
        r = np.asarray(r, dtype="f8")
        return [self.num(c, 1) if np.all(np.isfinite(c)) else [] for c in (r.T * k)]

    def map(self):
        np, v, rng = self.np, self.v, self.rng
        e, a, kw = self.where()
        r = rng.choice([1.0, 1.0, 2.5, 0.5, 3.0, 6.0, 1.25])
        e["r"], e["sph"] = int(1000 * r), rng.random() < 0.35
        if r != 1.0 or rng.random() < 0.5:
            kw["r"] = r
        if e["sph"] or rng.random() < 0.3:
            kw["as_spherical"] = e["sph"]
        e["got"] = self.call(lambda: [self.rows(v.dipole_map(a, **kw), 1000)])
        self.rec.ev(op="map", **e)

    def lsrlp(self):
        np, v, rng = self.np, self.v, self.rng
        e, a, kw = self.where()

        def go():
            r = np.array(v.xyz2lsrlp(a, **kw), dtype="f8")
            r[2:] = np.rad2deg(r[2:])
            r[0] = np.where(r[0] > 1e5, -0.001, r[0])
            return [self.rows(r, 1000)]
        e["got"] = self.call(go)
        self.rec.ev(op="lsrlp", **e)

    def value(self):
        np, v, rng = self.np, self.v, self.rng
        e, a, kw = self.where()
        r = rng.choice([1.0, 1.0, 2.5, 0.5, 3.0])
        e["r"], e["sph"] = int(1000 * r), rng.random() < 0.4
        if r != 1.0 or rng.random() < 0.5:
            kw["r"] = r
        e["fill"] = []
        if rng.random() < 0.4:
            e["fill"] = [-777000]
            kw["fillna"] = -777.0
        if not e["sph"]:
            ax = np.linspace(-4, 4, rng.choice([5, 9, 6]))
            f = v.zeros([ax, ax + 0.0, ax * 1.25], center="node")
            e["c"] = [rng.randrange(-3, 4) for _ in range(4)]
            X, Y, Z = f.get_crds(shaped=True)
            f.data[...] = e["c"][0] * X + e["c"][1] * Y + e["c"][2] * Z + e["c"][3]
        else:
            th, ph = np.linspace(0, 180, rng.choice([7, 13])), np.linspace(0, 360, rng.choice([9, 13, 25]))
            e["c"] = [0, 0, 1, 0] if rng.random() < 0.5 else [0, 1, 0, 0]
            order = rng.choice([("theta", "phi"), ("phi", "theta")])
            x = dict(theta=th, phi=ph)
            f = v.zeros([x[o] for o in order], crd_names=order, crd_type="uniform_spherical", center="node")
            T, P = np.meshgrid(th, ph, indexing="ij")
            q = P if e["c"][2] else T
            f.data[...] = q if order[0] == "theta" else q.T
        if "crd_system" in kw and rng.random() < 0.3:
            f.set_info("crd_system", kw.pop("crd_system"))

        def go():
            q = np.asarray(v.dipole_map_value(f, a, **kw), dtype="f8").reshape(-1)
            return [[self.num([x], 1000) if np.isfinite(x) else [] for x in q]]
        e["got"] = self.call(go)
        self.rec.ev(op="value", **e)


def drive(rec, tier, rng, shard, nshards, gen):
    run = Run(rec, rng)
    total = (800 if tier == "quick" else 8000) // nshards
    for i in range(total):
        rec.begin("d%d-%d" % (shard, i))
        for _ in range(3):
            rng.choice([run.fill, run.fill, run.calc, run.mask, run.region, run.region, run.map, run.map, run.lsrlp, run.value, run.value])()
