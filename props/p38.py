"""P38  fields and points on a sphere keep their place in every convention"""
SPEC = "MapFieldTrace"
MC = [dict(name="m", module="MapFieldMC", cfg="MapFieldMC.cfg", tiers=("quick",)),
      dict(name="m", module="MapFieldMC", cfg="MapFieldMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 4, "thorough": 8}
S = 10000
TRIPLES = [(1, 2, 2, 3), (2, 3, 6, 7), (0, 3, 4, 5), (1, 4, 8, 9), (4, 4, 7, 9), (0, 0, 1, 1), (0, 5, 12, 13), (2, 6, 9, 11)]
TURN = dict(phi="lon", lon="phi", theta="lat", lat="theta")


class Run(object):
    def __init__(self, rec, rng):
        import numpy as np
        import viscid
        from viscid import mapfield
        self.np, self.v, self.m, self.rec, self.rng = np, viscid, mapfield, rec, rng

    def num(self, x, k):
        a = self.np.asarray(x, dtype="f8") * k
        if not self.np.all(self.np.isfinite(a)) or self.np.any(self.np.abs(a) > 2e9):
            raise RuntimeError("not a number")
        return self.np.rint(a).astype("i8").tolist()

    def call(self, fn):
        try:
            return ["ok"] + list(fn())
        except Exception as e:
            return ["exc", type(e).__name__, str(e)[:100]]

    # -- fields -----------------------------------------------------------
    def new(self):
        np, v, rng = self.np, self.v, self.rng
        kind = rng.choice(["sphere", "sphere", "map"])
        axes = ["phi", "theta"] if kind == "sphere" else ["lon", "lat"]
        if rng.random() < 0.25:
            axes.append("r")
        rng.shuffle(axes)
        cell = rng.random() < 0.4
        uni = rng.random() < 0.4
        comps = rng.choice([1, 1, 3, 3])
        layout = rng.choice(["flat", "interlaced"])
        unit0 = rng.choice(["deg", "deg", "rad", "rad", ""])
        closed = rng.random() < 0.5
        crd, unit, arrs = [], [], []
        for a in axes:
            n = rng.randrange(3, 7)
            if a in ("phi", "lon"):
                n = rng.choice([4, 5, 6, 8])
                lo = rng.choice([0, 0, -180]) if a == "phi" else rng.choice([-180, 0])
                if uni or rng.random() < 0.4:
                    # all around, with or without the last meridian
                    st = 360 // n if 360 % n == 0 else 45
                    q = [lo + st * i for i in range(n + (1 if cell or closed else 0))]
                else:
                    q = sorted(rng.sample(range(lo, lo + 355, 3), n))
                    if cell:
                        q += [q[0] + 360]
            elif a in ("theta", "lat"):
                lo, hi = (0, 180) if a == "theta" else (-90, 90)
                k = rng.random()
                if uni:
                    b = rng.choice([(lo, hi, 7), (lo, hi, 10), (lo + 10, lo + 60, 6), (hi - 60, hi, 5), (lo + 50, lo + 130, 5), (lo + 90, hi, 4)])
                    q = [b[0] + (b[1] - b[0]) * i / (b[2] - 1) for i in range(b[2])]
                    assert all(abs(1000 * x - round(1000 * x)) < 1e-6 for x in q)
                else:
                    q = sorted(rng.sample(range(lo, hi + 1), n))
                if k < 0.06:
                    q = [x + (hi - q[-1]) + 10 for x in q]
            else:
                q = [1.0 + 0.5 * i for i in range(rng.randrange(2, 4))] if uni else sorted(rng.sample(range(1, 20), rng.randrange(2, 4)))
            u = unit0 if a != "r" else rng.choice(["", "km"])
            arr = np.array(q, dtype="f8")
            crd.append([int(round(1000 * x)) for x in q])
            unit.append(u)
            arrs.append(arr * np.pi / 180 if u == "rad" else arr)
        if unit0 == "rad" and any(a in ("theta",) and (min(c) < 1 or max(c) > 179999) or a == "lat" and (min(c) < -89999 or max(c) > 89999) for a, c in zip(axes, crd)):
            # the ends of the range are a matter of rounding in radians
            return self.new()
        cl = [[a, [x[0], x[-1], len(x)] if uni else x] for a, x in zip(axes, arrs)]
        us = list(unit)
        crds = v.wrap_crds(("uniform" if uni else "nonuniform") + rng.choice(["_spherical", "_spherical", ""]), cl, units=us)
        dim = [len(c) - (1 if cell else 0) for c in crd]
        tot = int(np.prod(dim)) * comps
        dat = [rng.randrange(-99, 100) for _ in range(tot)]
        d = np.array(dat, dtype=rng.choice(["f8", "f4"])).reshape(dim + ([comps] if comps > 1 else []))
        kw = {}
        if comps > 1:
            if layout == "flat":
                d = np.ascontiguousarray(np.moveaxis(d, -1, 0))
            kw = dict(fldtype="Vector", layout=layout)
        f = v.wrap_field(d, crds, name="f", center="cell" if cell else "node", **kw)
        if comps > 1 and f.layout != layout:
            return self.new()
        st = dict(axes=axes, crd=crd, unit=unit, dim=dim, comps=comps, cell=cell, dat=dat)
        return f, st, "uniform" if uni else "nonuniform"

    def show(self, f):
        np = self.np
        d = np.asarray(f.data)
        if f.nr_comps:
            d = np.moveaxis(d, f.nr_comp, -1)
            if list(d.shape[-1:]) != [f.nr_comps]:
                raise RuntimeError("components")
        axes = [str(a) for a in f.crds.axes]
        unit = [str(u) for u in f.crds.units]
        crd = []
        for a, u in zip(axes, unit):
            x = np.asarray(f.crds.get_crd(a, center="node"), dtype="f8")
            crd.append(self.num(x * (180 / np.pi) if u == "rad" else x, 1000))
        if list(d.shape[:len(axes)]) != list(f.sshape):
            raise RuntimeError("shape")
        return dict(axes=axes, crd=crd, unit=unit, dim=[int(n) for n in f.sshape], comps=int(f.nr_comps or 1),
                    cell=f.center.lower() == "cell", dat=self.num(d.reshape(-1), 1), uni="uniform" if f.crds.is_uniform() else "nonuniform")

    def fields(self):
        np, v, m, rng = self.np, self.v, self.m, self.rng
        f, st, uni = self.new()
        self.rec.begin("p38/fld", **st)
        for _ in range(rng.randrange(2, 6)):
            self.convert(f, uni) if len(st["axes"]) != 2 or rng.random() < 0.6 else self.polar(f, st)
            f = self.last if self.last is not None else f
        return

    def convert(self, f, uni):
        np, m, rng, v = self.np, self.m, self.rng, self.v
        to = rng.choice(["map", "sphere"])
        order = (["lon", "lat"] if to == "map" else ["phi", "theta"])
        rest = [str(a) for a in f.crds.axes if a not in TURN]
        default = not rest and rng.random() < 0.3
        if not default:
            order = order + rest
            rng.shuffle(order)
            if rng.random() < 0.05:
                order = order + ["q"] if rng.random() < 0.5 or len(order) > 2 else order[:1]
        k = rng.random()
        if k < 0.5:
            units, arg = [""] * len(order), ""
        elif k < 0.75 and not rest:
            u = rng.choice(["deg", "rad"])
            units, arg = [u] * len(order), u
        else:
            units = [rng.choice(["deg", "rad", ""]) if a != "r" else "" for a in order]
            if rng.random() < 0.3:
                units[-1] = ""
                arg = units[:-1]
            else:
                arg = list(units)
            if rng.random() < 0.3:
                arg = tuple(arg)
        args = () if default else ((order if rng.random() < 0.5 else tuple(order)),)
        kw = {} if arg == "" and rng.random() < 0.5 else dict(units=arg)
        keep = list(arg) if isinstance(arg, list) else None
        before = self.show(f)
        hold = []

        def fn():
            r = (m.as_mapfield if to == "map" else m.as_spherefield)(f, *args, **kw)
            hold.append(r)
            return [self.show(r)]
        got = self.call(fn)
        self.last = hold[0] if hold and got[0] == "ok" else None
        pure = self.show(f) == before and (keep is None or keep == arg)
        self.rec.ev(op="convert", to=to, order=order, units=units, got=got, pure=bool(pure), uni=uni)

    def polar(self, f, st):
        np, m, rng = self.np, self.m, self.rng
        self.last = None
        north = rng.random() < 0.5
        # whatever the way from here, these are the latitudes
        g = None
        try:
            g = m.as_mapfield(f, order=("lon", "lat"), units="rad")
            lat = np.rad2deg(g.get_crd("lat"))
            lon = np.rad2deg(g.crds.get_crd("lon", center="node"))
        except Exception:
            lat, lon = np.array([]), np.array([0, 360.0])
        b = None
        if rng.random() < 0.7 or np.any(np.abs(np.abs(lat) - 50) < 0.02) or np.any(np.abs(lat) < 0.02):
            ok = [x for x in range(5, 121) if not np.any(np.abs(lat - (90 - x)) < 0.02) and not np.any(np.abs(lat + (90 - x)) < 0.02)]
            b = rng.choice(ok)
        again = rng.random() < 0.4
        span = lon[-1] - lon[0]
        if again and span < 359.99:
            if g is not None and (g.iscentered("Cell") or (g.crds.is_uniform() and abs(span * len(lon) / (len(lon) - 1) - 360) > 0.01)):
                again = False
        before = self.show(f)
        hemi = rng.choice(["north", "N", " North "] if north else ["south", "S", "south "])
        kw = {} if b is None and rng.random() < 0.5 else dict(bounding_lat=b)
        if not north or rng.random() < 0.5:
            kw["hemisphere"] = hemi
        if again or rng.random() < 0.5:
            kw["make_periodic"] = again

        def fn():
            r = m.as_polar_mapfield(f, **kw)
            d = self.show(r)
            if not r.crds.units or r.crds.units[0] != "rad":
                # made to be plotted in radians
                d["crd"] = [self.num(np.rad2deg(np.asarray(r.crds.get_crd(a, center="node"))), 1000) for a in d["axes"]]
            return [d]
        got = self.call(fn)
        self.rec.ev(op="polar", b=[] if b is None else [1000 * b], north=north, again=again, got=got, pure=self.show(f) == before)

    # -- points -----------------------------------------------------------------
    def pyth(self):
        rng = self.rng
        t = rng.choice(TRIPLES)
        u = list(t[:3])
        rng.shuffle(u)
        return [[x * rng.choice([1, -1]) for x in u], t[3]]

    def points(self):
        np, m, rng = self.np, self.m, self.rng
        fn = rng.choice(["sph2cart", "latlon2cart", "cart2sph", "cart2latlon", "polar"])
        single = fn != "polar" and rng.random() < 0.4
        n = 1 if single else rng.randrange(1, 6)
        deg = rng.random() < 0.6
        k = np.pi / 180 if not deg else 1.0
        whole = rng.random() < 0.4
        ang = lambda lo, hi: 1000 * rng.randrange(lo // 1000, hi // 1000 + 1) if whole or rng.random() < 0.5 else rng.randrange(lo, hi + 1)
        ev = {}
        if fn == "sph2cart":
            pts = [[S * rng.randrange(1, 16), ang(0, 180000), ang(-180000, 360000)] for _ in range(n)]
            a = np.array([[p[0] / S, p[1] / 1000. * k, p[2] / 1000. * k] for p in pts]).T
            kw = dict(deg=deg) if deg or rng.random() < 0.5 else {}
        elif fn == "latlon2cart":
            r = rng.choice([1, 1, 2, 0.5, 7])
            pts = [[int(S * r), ang(-90000, 90000), ang(-180000, 360000)] for _ in range(n)]
            a = np.array([[p[1] / 1000. * k, p[2] / 1000. * k] for p in pts]).T
            kw = dict(deg=deg) if not deg or rng.random() < 0.5 else {}
            if r != 1 or rng.random() < 0.3:
                kw["r"] = r
        elif fn in ("cart2sph", "cart2latlon"):
            pts = [self.pyth() for _ in range(n)]
            a = np.array([p[0] for p in pts], dtype="f8").T
            kw = dict(deg=deg)
            if deg == (fn == "cart2latlon") and rng.random() < 0.5:
                kw = {}
        else:
            colat = rng.random() < 0.5
            ev["colat"], ev["north"] = colat, rng.random() < 0.5
            pts = [[ang(0, 180000) if colat else ang(-90000, 90000), ang(-180000, 360000)] for _ in range(n)]
            a = np.array([[p[0] / 1000. * k, p[1] / 1000. * k] for p in pts]).T
            axes = ["theta" if colat else "lat", rng.choice(["lon", "phi"])]
            if rng.random() < 0.5:
                axes, a = axes[::-1], a[::-1].copy()
            kw = dict(pts_unit="deg" if deg else "rad") if not deg or rng.random() < 0.5 else {}
            if not ev["north"] or rng.random() < 0.5:
                kw["hemisphere"] = rng.choice(["north", "N"] if ev["north"] else ["south", " S"])
        if single:
            a = a[:, 0]
        if np.all(a == np.rint(a)) and rng.random() < 0.6:
            a = a.astype("i8")
        arg = a.tolist() if rng.random() < 0.3 else a
        keep = np.array(arg)
        outdeg = {"cart2sph": deg, "cart2latlon": deg, "polar": False}.get(fn)

        def go():
            if fn == "polar":
                r = m.pts2polar_mapfield(arg, axes if rng.random() < 0.5 else tuple(axes), **kw)
            else:
                r = getattr(m, fn)(arg, **kw)
            r = np.asarray(r)
            sh = [int(x) for x in r.shape]
            q = r.reshape(r.shape[0], -1).T
            if fn in ("sph2cart", "latlon2cart"):
                return [self.num(q, S), sh]
            u = 1.0 if outdeg else 180 / np.pi
            if fn == "cart2sph":
                return [[[self.num(p[0], S)] + self.num(p[1:] * u, 1000) for p in q], sh]
            return [self.num(q * u, 1000), sh]
        got = self.call(go)
        want = {"sph2cart": 3, "latlon2cart": 3, "cart2sph": 3}.get(fn, 2)
        self.rec.ev(op="points", fn=fn, pts=pts, got=got, shape=[want] if single else [want, n], pure=bool(np.array_equal(keep, np.array(arg))), **ev)

    def angle(self):
        np, m, rng = self.np, self.m, self.rng
        fn = rng.choice(["theta2lat", "lat2theta", "phi2lon", "lon2phi"])
        deg = rng.random() < 0.6
        lo, hi = (0, 180000) if fn == "theta2lat" else (-90000, 90000)
        vals = [rng.randrange(lo + 1, hi) for _ in range(rng.randrange(1, 5))]
        if deg and rng.random() < 0.3:
            vals[0] = rng.choice([lo, hi])
        if rng.random() < 0.15:
            vals[-1] = rng.choice([lo - 500, hi + 500])
        x = np.array(vals) / 1000. * (1.0 if deg else np.pi / 180)
        arg = x.tolist() if rng.random() < 0.3 else x
        kw = dict(unit="rad") if not deg else {} if rng.random() < 0.5 else dict(unit="deg")
        keep = np.array(arg)
        got = self.call(lambda: [self.num(np.asarray(getattr(m, fn)(arg, **kw)) * (1.0 if deg else 180 / np.pi), 1000)])
        self.rec.ev(op="angle", fn=fn, vals=vals, got=got, pure=bool(np.array_equal(keep, np.array(arg))))

    def arc(self):
        np, m, rng = self.np, self.m, self.rng
        a, b = self.pyth(), self.pyth()
        k = rng.random()
        if k < 0.1:
            b = [[-x for x in a[0]], a[1]]
        elif k < 0.2:
            b = [list(a[0]), a[1]]
        o = [0, 0, 0] if rng.random() < 0.5 else [rng.randrange(-5, 6) for _ in range(3)]
        n = rng.choice([2, 3, 5, 8, 16, 32])
        kw = {} if n == 32 and rng.random() < 0.5 else dict(n=n)
        if any(o) or rng.random() < 0.3:
            kw["origin"] = o if rng.random() < 0.5 else tuple(o)
        dt = rng.choice(["f8", "i8", "f8"])
        p, q = [np.array([x + y for x, y in zip(t[0], o)], dtype=dt) for t in (a, b)]
        if rng.random() < 0.3:
            p, q = p.tolist(), q.tolist()
        kp, kq = np.array(p), np.array(q)
        rr = []

        def go():
            r = np.asarray(m.great_circle(p, q, **kw), dtype="f8")
            if r.ndim != 2 or r.shape[0] != 3:
                raise RuntimeError("shape")
            r = r.T - np.array(o, dtype="f8")
            rr.extend(self.num(np.sqrt(np.sum(r**2, axis=1)), 100))
            return [self.num(r, 10000)]
        got = self.call(go)
        self.rec.ev(op="arc", a=a, b=b, n=n, r=rr, got=got, pure=bool(np.array_equal(kp, np.array(p)) and np.array_equal(kq, np.array(q))))


def drive(rec, tier, rng, shard, nshards, gen):
    r = Run(rec, rng)
    n = 100 if tier == "quick" else 1500
    for k in range(n):
        r.fields()
        r.fields()
        rec.begin("p38/pts")
        for _ in range(4):
            r.points()
        r.angle()
        r.arc()
