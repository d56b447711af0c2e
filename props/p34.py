"""P34  seeds are where their description says, in one order"""
SPEC = "SeedsTrace"
STATELESS = True
MC = [dict(name="s", module="SeedsMC", cfg="SeedsMC.cfg", tiers=("quick",)),
      dict(name="s", module="SeedsMC", cfg="SeedsMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 4, "thorough": 8}
TRIPLES = [(1, 2, 2, 3), (2, 3, 6, 7), (0, 3, 4, 5), (1, 4, 8, 9), (4, 4, 7, 9), (0, 0, 1, 1), (0, 0, 1, 1)]


class Run(object):
    def __init__(self, rec, rng):
        import numpy as np
        import viscid
        self.np, self.v, self.rec, self.rng = np, viscid, rec, rng

    # milli units
    def x(self, lo=-4, hi=4):
        return 125 * self.rng.randrange(8 * lo, 8 * hi + 1)

    def p3(self):
        return [self.x() for _ in range(3)]

    def f(self, m):
        return (self.np.array(m, dtype="f8") / 1000)

    def like(self, a):
        """list, tuple or array"""
        k = self.rng.randrange(3)
        return a if k == 0 else a.tolist() if k == 1 else tuple(a.tolist())

    def mil(self, x, scale=1000):
        np = self.np
        a = np.asarray(x, dtype="f8") * scale
        if not np.all(np.isfinite(a)) or np.any(np.abs(a) > 1e6 * 1000):
            raise RuntimeError("not numbers")
        return np.rint(a).astype("i8").tolist()

    def pole(self):
        rng = self.rng
        t = rng.choice(TRIPLES)
        while True:
            u = list(t[:3])
            rng.shuffle(u)
            u = [a * rng.choice([1, -1]) for a in u]
            if u != [0, 0, -1]:
                return [u, t[3]]

    # -- kinds: description for the specification, the object, what its arguments were
    def pts(self):
        rng, np, v = self.rng, self.np, self.v
        n = rng.choice([1, 2, 3, 4, 5, 7])
        m = [[self.x() for _ in range(n)] for _ in range(3)]
        if rng.random() < 0.5:
            m = [list(r) for r in zip(*m)]
        own = [] if rng.random() < 0.6 else sorted(rng.sample(range(0, 90000, 250), n if len(m) == 3 and n != 3 else (len(m[0]) if len(m) == 3 else len(m))))
        a = self.f(m)
        kw = {}
        if own:
            kw["local_crds"] = self.like(self.f(own))
        if rng.random() < 0.3:
            kw["cache"] = True
        arg = a if rng.random() < 0.6 else a.tolist()
        if not own and rng.random() < 0.3:
            obj = v.to_seeds(arg)
        else:
            obj = v.to_seeds(v.Point(arg, **kw)) if rng.random() < 0.3 else v.Point(arg, **kw)
        return dict(k="pts", m=m, own=own), obj, [arg]

    def mesh(self):
        rng, v = self.rng, self.v
        nu, nw = rng.randrange(1, 5), rng.randrange(1, 5)
        m = [[[self.x() for _ in range(nw)] for _ in range(nu)] for _ in range(3)]
        if rng.random() < 0.5:
            a = self.f(m)
            return dict(k="mesh", m=m), v.MeshPoints(a, cache=rng.random() < 0.3), [a]
        along = rng.choice([[1, 2], [2, 1]])
        u = sorted(rng.sample(range(-4000, 4000, 125), nu))
        w = sorted(rng.sample(range(-4000, 4000, 125), nw))
        for i in range(nu):
            for j in range(nw):
                m[along[0] - 1][i][j] = u[i]
                m[along[1] - 1][i][j] = w[j]
        a = self.f(m)
        form = {(1, 2): rng.choice(["xy", (0, 1), ("x", "y")]), (2, 1): rng.choice(["yx", [1, 0]])}[tuple(along)]
        kw = {} if form == "xy" and rng.random() < 0.5 else dict(mesh_axes=form)
        return dict(k="rect", m=m, along=along), v.RectilinearMeshPoints(a, **kw), [a]

    def opts(self):
        rng = self.rng
        kw = {}
        if rng.random() < 0.3:
            kw["cache"] = True
        if rng.random() < 0.15:
            kw["dtype"] = "f8"
        return kw

    def line(self):
        rng, v = self.rng, self.v
        p0 = self.p3()
        t = rng.choice(TRIPLES)
        s = rng.choice([125, 250, 500])
        u = list(t[:3])
        rng.shuffle(u)
        p1 = [a + b * s * rng.choice([1, -1]) for a, b in zip(p0, u)]
        n = rng.choice([1, 2, 3, 4, 5, 8])
        args = [self.like(self.f(p0)), self.like(self.f(p1))]
        if rng.random() < 0.5:
            obj = v.Line(args[0], args[1], n, **self.opts())
        else:
            obj = v.Line(p1=args[1], p0=args[0], n=n, **self.opts())
        return dict(k="line", p0=p0, p1=p1, len=t[3] * s, n=n), obj, args

    def spline(self):
        rng, v, np = self.rng, self.v, self.np
        p = [self.p3()]
        lens = []
        straight = rng.random() < 0.5
        nk = rng.randrange(2, 6)
        t = None
        for _ in range(nk - 1):
            if t is None or not straight:
                t = rng.choice(TRIPLES)
                u = list(t[:3])
                rng.shuffle(u)
                u = [a * rng.choice([1, -1]) for a in u]
                s = rng.choice([125, 250, 500])
            p.append([a + b * s for a, b in zip(p[-1], u)])
            lens.append(t[3] * s)
        n = rng.choice([2, 3, 4, 5, 8, -1, -2])
        kn = self.f(p).T
        arg = kn if rng.random() < 0.6 else kn.tolist()
        kw = self.opts()
        opt = None
        # a spline of degree one goes along the segments, and so does any through points on a line
        if not straight or rng.random() < 0.5:
            opt = dict(k=1, s=0)
            kw["splprep_kw"] = opt
        obj = v.Spline(arg, n, **kw) if rng.random() < 0.5 else v.Spline(knots=arg, n=n, **kw)
        self.straight = straight
        return dict(k="spline", knots=p, lens=lens, n=n if n > 0 else -n * nk), obj, [arg] + ([opt] if opt else [])

    def plane(self):
        rng, v, np = self.rng, self.v, self.np
        while True:
            q = [rng.randrange(-3, 4) for _ in range(4)]
            if any(q):
                break
        w, x, y, z = q
        n = float(sum(a * a for a in q))
        R = np.array([[n - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                      [2 * (x * y + z * w), n - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                      [2 * (x * z - y * w), 2 * (y * z + x * w), n - 2 * (x * x + y * y)]]) / n
        p0 = self.p3()
        N = R[:, 2] * rng.choice([1, 2, 0.5])
        L = R[:, 0] * rng.choice([1, 3]) + R[:, 2] * rng.choice([0, 0, 1.5, -2])
        kw = self.opts()
        if rng.random() < 0.4:
            N, L = N + self.f(p0), L + self.f(p0)
            kw["NL_are_vectors"] = False
        elif rng.random() < 0.5:
            kw["NL_are_vectors"] = True

        def lim():
            if rng.random() < 0.5:
                a = 250 * rng.randrange(1, 12)
                return [-a // 2, a // 2], a / 1000.0
            a = sorted(rng.sample(range(-4000, 4000, 125), 2))
            return a, rng.choice([list, tuple])([t / 1000.0 for t in a])
        l, al = lim()
        m, am = lim()
        nl, nm = rng.randrange(1, 5), rng.randrange(1, 5)
        args = [self.like(self.f(p0)), self.like(N), self.like(L)]
        obj = v.Plane(args[0], args[1], args[2], len_l=al, len_m=am, nl=nl, nm=nm, **kw)
        return dict(k="plane", p0=p0, q=q, l=l, m=m, nl=nl, nm=nm), obj, args

    def volume(self):
        rng, v = self.rng, self.v
        lo = self.p3()
        hi = [a + 125 * rng.randrange(1, 30) for a in lo]
        n = [rng.choice([1, 2, 3]) for _ in range(3)]
        args = [self.like(self.f(lo)), self.like(self.f(hi)), rng.choice([list, tuple])(n)]
        if n[0] == n[1] == n[2] and rng.random() < 0.7:
            args[2] = n[0]
        obj = v.Volume(args[0], args[1], args[2], **self.opts()) if rng.random() < 0.5 else v.Volume(xh=args[1], xl=args[0], n=args[2], **self.opts())
        return dict(k="volume", lo=lo, hi=hi, n=n), obj, args

    def sphere(self):
        rng, v, np = self.rng, self.v, self.np
        kind = rng.choice(["Sphere", "Sphere", "Sphere", "SphericalCap", "Circle"])
        p0 = self.p3()
        pole = self.pole()
        s = rng.choice([250, 500, 1000])
        kw = self.opts()
        args = [self.like(self.f(p0))]
        pv = self.f([a * s for a in pole[0]])
        if rng.random() < 0.4:
            args[0] = self.f(p0)
            pv = pv + args[0]
            kw["pole_is_vector"] = False
        r = rng.choice([0, 0, 500, 1250, 3000])
        if r:
            kw["r"] = r / 1000.0
        if pole[0] == [0, 0, 1] and rng.random() < 0.4 and (r or kw.get("pole_is_vector", True)):
            if kw.get("pole_is_vector", True):
                r = r or 1000
            else:
                kw["pole"] = None
                args.append(None)
        else:
            args.append(self.like(pv))
            kw["pole"] = args[1]
        r = r or pole[1] * s
        roll = 0
        if rng.random() < 0.4:
            roll = 1000 * rng.randrange(-180, 181)
            kw["roll"] = roll / 1000.0
        gse = rng.random() < 0.2
        if gse:
            kw["crd_system"] = rng.choice(["gse", " GSE"])
            if rng.random() < 0.3:
                fl = v.zeros((2, 2))
                fl.set_info("crd_system", "gse")
                kw["crd_system"] = fl
        elif rng.random() < 0.2:
            kw["crd_system"] = rng.choice(["mhd", "none"])
        c = dict(k="sphere", p0=p0, r=r, pole=pole, roll=roll, gse=gse, cap=kind != "Sphere", ends="auto", fend="auto", t=[0, 180000], f=[0, 360000], tp=False)
        if rng.random() < 0.4:
            kw["theta_phi"] = c["tp"] = True
        elif rng.random() < 0.3:
            kw["theta_phi"] = False
        if rng.random() < 0.4:
            a = rng.choice([0, -90000, 30000])
            b = a + rng.choice([360000, 180000, 90000, 45000])
            c["f"] = [a, b]
            kw["philim"] = rng.choice([list, tuple])([a / 1000.0, b / 1000.0])
        if rng.random() < 0.3:
            c["fend"] = rng.choice(["auto", "yes", "no"])
            kw["phi_endpoint"] = {"auto": "auto", "yes": True, "no": False}[c["fend"]]
        E = {"auto": "auto", "yes": True, "no": False, "yes no": [True, False], "no yes": (False, True)}
        if kind != "Circle" and rng.random() < 0.4:
            c["ends"] = rng.choice(sorted(E))
            kw["theta_endpoint"] = E[c["ends"]]
        if rng.random() < 0.3:
            kw["fill_holes"] = self.fill = rng.random() < 0.5
        nt, nf = rng.randrange(1, 5), rng.randrange(1, 5)
        if kind == "Sphere":
            if rng.random() < 0.5:
                a = rng.choice([0, 0, 30000, 90000])
                b = rng.choice([180000, 180000, 120000, 150000, 90000 + a // 2])
                c["t"] = [a, b]
                kw["thetalim"] = rng.choice([list, tuple])([a / 1000.0, b / 1000.0])
            obj = v.Sphere(args[0], ntheta=nt, nphi=nf, **kw)
        elif kind == "SphericalCap":
            a, b = rng.choice([0, 0, 10000, 30000]), rng.choice([90000, 45000, 60000])
            c["t"] = [a, b]
            if a or rng.random() < 0.5:
                kw["angle0"] = a / 1000.0
            if b != 90000 or rng.random() < 0.5:
                kw["angle"] = b / 1000.0
            obj = v.SphericalCap(p0=args[0], ntheta=nt, nphi=nf, **kw)
        else:
            nt = 1
            c["t"] = [90000, 90000]
            if "phi_endpoint" in kw and kw["phi_endpoint"] != "auto" and rng.random() < 0.5:
                kw["endpoint"] = kw.pop("phi_endpoint")
            obj = v.Circle(n=nf, p0=args[0], **kw)
        c["nt"], c["nf"] = nt, nf
        return c, obj, args

    def patch(self):
        rng, v = self.rng, self.v
        p0 = self.p3()
        pole = self.pole()
        s = rng.choice([250, 500, 1000])
        kw = self.opts()
        p1 = [a * s for a in pole[0]]
        if rng.random() < 0.4:
            p1 = [a + b for a, b in zip(p1, p0)]
            kw["p1_is_vector"] = False
        r = rng.choice([0, 0, 500, 1250])
        if r:
            kw["r"] = r / 1000.0
        r = r or pole[1] * s
        roll = 0
        if rng.random() < 0.5:
            roll = 1000 * rng.randrange(-180, 181)
            kw["roll"] = roll / 1000.0
        al, be = rng.choice([(45, 45), (30, 40), (60, 20), (10, 70)])
        if (al, be) != (45, 45) or rng.random() < 0.5:
            kw["max_alpha"], kw["max_beta"] = al, be
        na, nb = rng.randrange(1, 5), rng.randrange(1, 5)
        args = [self.like(self.f(p0)), self.like(self.f(p1))]
        obj = v.SphericalPatch(args[0], args[1], nalpha=na, nbeta=nb, **kw)
        return dict(k="patch", p0=p0, r=r, pole=pole, roll=roll, gse=False, al=1000 * al, be=1000 * be, na=na, nb=nb), obj, args

    # -- events ---------------------------------------------------------------
    def ev(self, op, c, fn, args, before, **kw):
        try:
            got = ["ok", fn()]
        except Exception as e:
            got = ["exc", type(e).__name__, str(e)[:120]]
        self.rec.ev(op=op, c=c, got=got, pure=self.rep(args) == before, **kw)

    def rep(self, args):
        return repr([a.tolist() if hasattr(a, "tolist") else a for a in args])

    def points(self, c, o):
        np = self.np

        def fn():
            a = np.array(o.get_points())
            if a.ndim != 2 or a.shape[0] != 3:
                raise RuntimeError("shape %r" % (a.shape,))
            it = [[float(t) for t in p] for p in o.iter_points()]
            again = all(np.array_equal(a, b) for b in (o.get_points(), o.points(), np.asarray(o), o.get_points()))
            return dict(n=int(o.nr_points), pts=self.mil(a.T), iter=self.mil(it), again=bool(again))
        return fn

    def rad(self, c):
        """scale from local coordinates to thousandths"""
        return 180000 / self.np.pi if c["k"] in ("sphere", "patch") else 1000

    def one(self):
        rng, np, v = self.rng, self.np, self.v
        self.fill = True
        self.straight = True
        c, o, args = getattr(self, rng.choice(["pts", "mesh", "line", "spline", "plane", "volume", "sphere", "sphere", "sphere", "patch"]))()
        before = self.rep(args)
        ops = ["pts"]
        k = c["k"]
        flat = k != "volume" or 1 in c["n"]
        if rng.random() < 0.7:
            ops.append("wrap")
        if k != "pts" and flat:
            ops.append("mesh")
        if k in ("line", "spline", "plane", "sphere", "patch") or (k == "volume" and flat):
            ops.append("uv")
        if k in ("mesh", "rect", "plane", "sphere", "patch") or (k == "volume" and flat):
            ops.append("uvaxes")
        if k == "plane":
            ops.append("local")
        rng.shuffle(ops)
        for op in ops:
            if op == "pts":
                self.ev(op, c, self.points(c, o), args, before)
            elif op == "mesh":
                n = int(o.nr_points)
                vals = [10 * rng.randrange(-50, 51) for _ in range(n)]
                arrs = k not in ("line", "spline") and rng.random() < 0.7
                how = rng.randrange(3) if k == "sphere" else 0
                fill = self.fill if how == 0 else how == 1
                kw = {} if how == 0 else dict(fill_holes=fill)
                if not arrs:
                    vals = []

                def fn():
                    if arrs:
                        d = self.f(vals).reshape(o.uv_shape)
                        if rng.random() < 0.5:
                            d = d.ravel()
                        V, A = o.wrap_mesh(d, **kw)
                        return dict(verts=self.mil(np.moveaxis(V, 0, -1)), arr=self.mil(A))
                    return dict(verts=self.mil(np.moveaxis(o.as_mesh(**kw), 0, -1)), arr=[])
                self.ev(op, c, fn, args, before, fill=fill, vals=vals)
            elif op == "wrap":
                n = int(o.nr_points)
                vals = [rng.randrange(-500, 501) for _ in range(n)]
                if k == "spline" and not self.straight or len(args) and k == "spline" and c["n"] < 2:
                    continue

                def fn():
                    d = self.f(vals)
                    crds = o.as_local_coordinates()
                    if rng.random() < 0.5:
                        d = d.reshape(crds.shape_nc)
                    fl = o.wrap_field(d, name="w")
                    assert fl.name == "w" and fl.nr_comps == 0
                    got = self.mil(np.asarray(fl.data).ravel())
                    crds = fl.crds
                    ax = [[a, self.mil(crds.get_nc(a), 180000 / np.pi if a in ("phi", "theta") or k == "patch" else 1000)] for a in crds.axes]
                    return dict(ax=ax, vals=got)
                self.ev(op, c, fn, args, before, vals=vals)
            elif op == "uvaxes":
                def fn():
                    crds = o.as_uv_coordinates()
                    u, w = [self.mil(crds.get_nc(a), self.rad(c)) for a in crds.axes]
                    return dict(shape=[int(s) for s in o.uv_shape], u=u, v=w)
                self.ev(op, c, fn, args, before)
            elif op == "uv":
                m = rng.randrange(1, 5)
                if k in ("line", "spline"):
                    at = [[20 * rng.randrange(0, 51), 0] for _ in range(m)]
                elif k == "sphere":
                    at = [[1000 * rng.randrange(0, 181), 1000 * rng.randrange(-180, 361)] for _ in range(m)]
                    at = at if c["tp"] else [p[::-1] for p in at]
                elif k == "patch":
                    at = [[1000 * rng.randrange(-45, 46), 1000 * rng.randrange(-45, 46)] for _ in range(m)]
                else:
                    at = [[self.x(), self.x()] for _ in range(m)]
                uv = (np.array(at, dtype="f8") / self.rad(c)).T
                self.ev(op, c, lambda: self.mil(np.asarray(o.uv_to_3d(uv)).T), args, before, at=at)
            else:
                at = [self.p3() for _ in range(rng.randrange(1, 5))]
                self.ev(op, c, lambda: self.mil(np.asarray(o.to_local(self.f(at).T)).T), args, before, at=at)


def drive(rec, tier, rng, shard, nshards, gen):
    r = Run(rec, rng)
    n = 150 if tier == "quick" else 2500
    for k in range(n):
        rec.begin("p34/%d" % k)
        for _ in range(5):
            r.one()
