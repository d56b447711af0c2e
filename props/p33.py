"""P33  field lines: steps, limits, ends, and what they mean"""
import sys
SPEC = "StreamsTrace"
STATELESS = True
MC = [dict(name="s", module="StreamsMC", cfg="StreamsMC.cfg", tiers=("quick",)),
      dict(name="s", module="StreamsMC", cfg="StreamsMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 4, "thorough": 8}
K = 16
FINE = 1024
METHODS = dict(euler=1, rk2=2, rk4=3, euler1a=4, rk12=5, rk45=6)


class Bad(Exception):
    pass


def grid(np, x, k):
    """counted in 1/k, exactly"""
    y = np.asarray(x, dtype="f8") * k
    r = np.rint(y)
    if not np.all(np.isfinite(y)) or np.any(np.abs(y - r) > 1e-5):
        raise Bad("not on the lattice %r" % (np.asarray(x).tolist(),))
    return [[int(a) for a in row] for row in r.T]


class Run(object):
    def __init__(self, rec, rng):
        import numpy as np
        import viscid
        self.np, self.v, self.rec, self.rng = np, viscid, rec, rng

    def field(self, n, o, vec, center="node", dtype="f8", step=None, uni=True):
        """places at o, o + step[0], .."""
        np, v, rng = self.np, self.v, self.rng
        cl = []
        for a in range(3):
            st = step[a] if step else [1.0] * n[a]
            x = [o[a]]
            for i in range(n[a] - 1):
                x.append(x[-1] + st[i])
            x = np.array(x, dtype="f8")
            if center == "cell":
                x = np.concatenate([[x[0] - 0.5], 0.5 * (x[1:] + x[:-1]), [x[-1] + 0.5]])
            cl.append(x)
        if uni:
            crds = v.arrays2crds(cl, crd_names="xyz")
        else:
            crds = v.wrap_crds("nonuniform_cartesian", list(zip("xyz", cl)))
        arr = np.array(vec, dtype=dtype).reshape(list(n) + [3])
        # the shape alone does not settle the layout of three by three by three vectors
        f = v.wrap_field([np.array(arr[..., i]) for i in range(3)], crds, name="b", fldtype="vector", center=center)
        return f if rng.random() < 0.5 else f.as_interlaced()

    def call(self, f, seeds, **kw):
        sys.setswitchinterval(1e-5 if kw.get("nr_procs", 1) > 1 else 5e-3)
        lines, topo = self.v.calc_streamlines(f, seeds, **kw)
        return lines, topo

    def ev(self, op, fn, fld=None, **kw):
        np = self.np
        d = np.array(fld.data) if fld is not None else None
        exc, r = "", {}
        try:
            r = fn()
        except Exception as e:
            exc = "%s: %s" % (type(e).__name__, str(e)[:100])
        pure = fld is None or bool(np.array_equal(d, fld.data))
        kw.update(r)
        self.rec.ev(op=op, exc=exc, pure=pure, **kw)

    # ------------------------------------------------------------ lattices
    def lattice(self):
        rng, np, v = self.rng, self.np, self.v
        n = [rng.randrange(2, 5) for _ in range(3)]
        if rng.random() < 0.35:
            n[rng.randrange(3)] = 1
        o = [rng.randrange(-3, 2) for _ in range(3)]
        N = n[0] * n[1] * n[2]
        meth = rng.choice(["euler", "euler", "euler", "euler", "rk2", "rk4", "euler1a", "rk12", "rk45"])
        mags = [1, 2, 4]
        cut_t = rng.random() < 0.3
        if meth == "euler":
            zero = rng.random() < 0.4
            vec = []
            for _ in range(N):
                w = [0, 0, 0]
                if not (zero and rng.random() < 0.15):
                    w[rng.randrange(3)] = rng.choice(mags) * rng.choice([1, -1])
                vec.append(w)
            center = rng.choice(["node", "cell"])
        else:
            a, sg, mg = rng.randrange(3), rng.choice([1, -1]), rng.choice(mags)
            vec = []
            for _ in range(N):
                w = [0, 0, 0]
                w[a] = sg * (mg if cut_t else rng.choice(mags))
                vec.append(w)
            center = "cell"
            o[2] += 0.25  # neither zero nor any bound is met exactly
        # what does not move makes no difference
        F = dict(n=n, o=[int(K * x) for x in o], v=vec)
        f = self.field(n, o, vec, center, rng.choice(["f8", "f8", "f4", "i8", "i4"]), uni=rng.random() < 0.6)
        ds = rng.choice([1, 1, 2])
        half = K // 2 if center == "cell" else 0
        lo = [[] if n[a] == 1 else [int(K * o[a]) - half] for a in range(3)]
        hi = [[] if n[a] == 1 else [int(K * (o[a] + n[a] - 1)) + half] for a in range(3)]
        kw = dict(ds0=float(ds), method=meth if rng.random() < 0.7 else METHODS[meth])
        if meth not in ("euler", "rk2", "rk4"):
            kw.update(smallest_ds=float(ds), largest_ds=float(ds))
        if rng.random() < 0.25:
            b = [int(K * (x - rng.randrange(0, 2))) - half for x in o]
            lo = [[x] for x in b]
            kw["obound0"] = [x / float(K) for x in b]
        if rng.random() < 0.25:
            b = [int(K * (x + m - 1 + rng.randrange(-1, 3))) + half for x, m in zip(o, n)]
            hi = [[x] for x in b]
            kw["obound1"] = np.array([x / float(K) for x in b])
        odd = lambda a, b: (K // 2) * (2 * rng.randrange(a, b) + 1)
        anyhalf = lambda a, b: (K // 2) * rng.randrange(2 * a, 2 * b)
        pick = anyhalf if meth == "euler" else odd
        ib = pick(0, 3) if rng.random() < 0.5 else 0
        obr = pick(2, 5) if rng.random() < 0.3 else 0
        maxlen = rng.randrange(1, 6 * K) if rng.random() < 0.35 else 0
        maxt = rng.randrange(1, 4 * K) if cut_t else 0
        if meth != "euler":
            maxlen = 2 * (maxlen // 2) + (1 if maxlen else 0)
            maxt = 2 * (maxt // 2) + (1 if maxt else 0)
        maxit = rng.randrange(1, 14)
        dirs = rng.choice([1, 2, 3, 3, 3])
        kw.update(ibound=ib / float(K), maxit=maxit, max_t=maxt / float(K), stream_dir=dirs)
        if obr:
            kw["obound_r"] = obr / float(K)
        if maxlen:
            kw["max_length"] = maxlen / float(K)
        O = dict(ds=ds * K, ibound=ib, obr=obr, lo=lo, hi=hi, maxlen=maxlen, maxt=maxt, maxit=maxit, dirs=dirs)
        lat = lambda a: o[a] + rng.randrange(-1, n[a] + 1) if rng.random() < 0.15 else o[a] + rng.randrange(n[a])
        if rng.random() < 0.3:
            m = [rng.randrange(1, 3) for _ in range(3)]
            p = [[lat(a)] for a in range(3)]
            for a in range(3):
                for _ in range(m[a] - 1):
                    p[a].append(p[a][-1] + 1)
            sd = v.zeros(v.arrays2crds([np.array(q, dtype="f8") for q in p], crd_names="xyz"), center="node", name="s")
            seeds = [[x, y, z] for x in p[0] for y in p[1] for z in p[2]]
            shape = m
        else:
            m = rng.choice([1, 1, 2, 4, 5, 7])
            seeds = [[lat(a) for a in range(3)] for _ in range(m)]
            arr = np.array(seeds, dtype="f8").T
            sd = rng.choice([lambda: arr, lambda: v.Point(arr), lambda: [list(q) for q in arr]])()
            shape = [m]
        out = rng.choice([1, 2, 3, 3, 3])
        style = rng.choice(["msphere", "generic"])
        par = dict(nr_procs=rng.choice([1, 1, 1, 2, 3, 5]), chunk_factor=rng.choice([1, 1, 2, 3]))
        if rng.random() < 0.02:
            par["threads"] = False
        wrap = rng.random() < 0.7

        def fn():
            lines, topo = self.call(f, sd, output=out, topo_style=style, wrap=wrap, **dict(kw, **par))
            if (lines is None) != (out == 2) or (topo is None) != (out == 1):
                raise Bad("output")
            r = dict(lines=[], topo=[])
            if lines is not None:
                r["lines"] = [[grid(np, q, K) for q in lines]]
            if topo is not None:
                if wrap != isinstance(topo, v.field.Field):
                    raise Bad("wrap")
                t = np.asarray(topo.data if wrap else topo)
                if list(t.shape) != (shape if wrap else [len(seeds)]):
                    raise Bad("shape of topology %r" % (t.shape,))
                r["topo"] = [[int(x) for x in t.ravel()]]
            return r
        self.ev("lattice", fn, f, F=F, O=O, seeds=[[int(K * x) for x in q] for q in seeds], style=style,
                method=meth, center=center, par=str(par))

    # ----------------------------------------------------------- any field
    def smooth(self):
        rng, np, v = self.rng, self.np, self.v
        n = [rng.randrange(3, 6) for _ in range(3)]
        o = [rng.randrange(-3, 0) for _ in range(3)]
        N = n[0] * n[1] * n[2]
        bias = [0, 0, 0]
        bias[rng.randrange(3)] = rng.choice([-2, 2, 3])
        vec = [[bias[a] + rng.choice([-1, 0, 1]) for a in range(3)] for _ in range(N)]
        unisp = rng.random() < 0.5
        step = None if unisp else [[rng.choice([0.5, 1.0, 1.5]) for _ in range(n[a])] for a in range(3)]
        f = self.field(n, o, vec, "node" if step else rng.choice(["node", "cell"]), step=step, uni=unisp)
        c = f.get_crds()
        seeds = [[rng.randrange(int(64 * x[0]), int(64 * x[-1]) + 1) / 64.0 for x in c] for _ in range(rng.choice([1, 2, 3, 6]))]
        return f, seeds, n, vec

    def law(self):
        rng, np, v = self.rng, self.np, self.v
        f, seeds, n, vec = self.smooth()
        meth = rng.choice(list(METHODS))
        ds = rng.choice([0.125, 0.25, 0.5])
        kw = dict(ds0=ds, method=meth)
        fixed = meth in ("euler", "rk2", "rk4")
        lg = ds
        if not fixed:
            lg = ds * rng.choice([1, 2, 4])
            kw.update(largest_ds=lg, smallest_ds=ds / rng.choice([2, 8]))
        ib = rng.choice([0, 0, 0.5, 1.25])
        obr = rng.choice([0, 0, 2.75])
        ml = rng.choice([0, 0, 1.1, 3.3])
        it = rng.choice([5, 200, 200])
        dirs = rng.choice([1, 2, 3, 3])
        lo = [float(x) for x in f.crds.xl_nc]
        hi = [float(x) for x in f.crds.xh_nc]
        if rng.random() < 0.3:
            lo = [x + rng.choice([0, 0.375]) for x in lo]
            kw["obound0"] = lo
        if rng.random() < 0.3:
            hi = [x - rng.choice([0, 0.375]) for x in hi]
            kw["obound1"] = hi
        kw.update(ibound=ib, obound_r=obr, maxit=it, stream_dir=dirs)
        if ml:
            kw["max_length"] = ml
        O = dict(ibound=int(FINE * ib), obr=int(FINE * obr), maxlen=int(FINE * ml), maxit=it, dirs=dirs,
                 lo=[[int(FINE * x)] for x in lo], hi=[[int(FINE * x)] for x in hi],
                 fixed=meth in ("euler", "rk2"), least=int(FINE * ds), most=int(FINE * lg * (1.5 if meth == "rk45" else 1)) + 1,
                 over=0 if fixed else 16, under=0 if meth in ("euler", "rk2") else 100)
        sd = np.array(seeds).T

        def fn():
            lines, topo = self.call(f, v.Point(sd), topo_style="generic", wrap=False, **kw)
            q = []
            for s, ln, t in zip(seeds, lines, topo):
                k = [i for i in range(ln.shape[1]) if list(ln[:, i]) == s]
                seg = np.sqrt(np.sum((ln[:, 1:] - ln[:, :-1]) ** 2, axis=0))
                q.append(dict(k=(k[0] + 1) if k else 0, flags=int(t), seg=[int(round(FINE * x)) for x in seg],
                              pts=[[int(round(FINE * x)) for x in p] for p in ln.T]))
            return dict(q=q)
        self.ev("law", fn, f, O=O, method=meth)

    def keep(self):
        """fields whose lines are known curves"""
        rng, np, v = self.rng, self.np, self.v
        n = [9, 9, 3]
        o = [rng.randrange(-6, -2), rng.randrange(-6, -2), -1]
        c = [o[0] + 4, o[1] + 4]
        kind = rng.choice(["circle", "saddle"])
        sg = rng.choice([1, -1])
        vec = []
        for i in range(9):
            for j in range(9):
                x, y = i - 4, j - 4
                w = [-y * sg, x * sg, 0] if kind == "circle" else [x * sg, -y * sg, 0]
                vec += [w] * 3
        f = self.field(n, o, vec, "node", uni=rng.random() < 0.5)
        meth = rng.choice(["rk2", "rk4", "rk45"])
        sd = [c[0] + rng.choice([-1, 1]) * rng.randrange(32, 90) / 32.0, c[1] + rng.choice([-1, 1]) * rng.randrange(32, 90) / 32.0,
              rng.randrange(-30, 30) / 32.0]
        kw = dict(ds0=0.125, method=meth, max_length=rng.choice([4.0, 9.0]), stream_dir=rng.choice([1, 2, 3]), maxit=300)
        tol = dict(rk2=700, rk4=110, rk45=110)[meth]
        fine = lambda p: [int(round(FINE * p[0])), int(round(FINE * p[1])), int(round(FINE * p[2]))]

        def fn():
            lines, _ = self.call(f, np.array([sd]).T, **kw)
            p = [fine(q) for q in lines[0].T]
            if len(p) < 3:
                raise Bad("short line")
            if meth == "rk45":
                p = p[1:-1]  # the ends are cut off on a chord
            return dict(pts=p[::max(1, len(p) // 40)])
        self.ev("keep", fn, f, f=kind, c=[FINE * x for x in c], seed=fine(sd), tol=tol, method=meth)

    def along(self):
        rng, np, v = self.rng, self.np, self.v
        f, seeds, n, vec = self.smooth()
        f = f.as_interlaced()
        c = f.get_crds()
        a = dict(ax=[dict(n=x, p=[int(round(2 * q)) for q in p]) for x, p in zip("xyz", c)], nc=3, v=[q for w in vec for q in w])
        d = rng.choice([1, 2])

        def fn():
            lines, _ = self.call(f, np.array(seeds).T, ds0=0.25, method="euler", stream_dir=d, maxit=rng.choice([3, 30]))
            steps = []
            for ln in lines:
                p = ln.T if d == 1 else ln.T[::-1]
                for i in range(min(len(p) - 1, 6)):
                    g = (p[i + 1] - p[i]) * (1 if d == 1 else -1)
                    steps.append(dict(g=[int(round(1000 * x)) for x in g], t=[int(round(64 * x)) for x in p[i]]))
            return dict(steps=steps)
        self.ev("along", fn, f, a=a, d=d)

    def same(self):
        """ways of asking for the same lines"""
        rng, np, v = self.rng, self.np, self.v
        f, seeds, n, vec = self.smooth()
        kw = dict(ds0=0.25, method=rng.choice(list(METHODS)), maxit=60, ibound=rng.choice([0, 1.0]), topo_style=rng.choice(["generic", "msphere"]))
        sd = np.array(seeds).T
        how = rng.choice(["procs", "procs", "alone", "reverse", "failed", "field", "layout", "join", "outs"])

        def eq(a, b):
            return a[0].shape == b[0].shape and all(np.array_equal(x, y) for x, y in zip(a[0], b[0])) \
                and np.array_equal(np.asarray(a[1]), np.asarray(b[1]))

        def fn():
            ref = self.call(f, sd, wrap=False, **kw)
            if how == "procs":
                ok = eq(ref, self.call(f, sd, wrap=False, nr_procs=rng.choice([2, 3, 4]), chunk_factor=rng.choice([1, 2, 5]),
                                       threads=rng.random() < 0.9, **kw))
            elif how == "alone":
                ok = all(np.array_equal(self.call(f, sd[:, i:i + 1], wrap=False, **kw)[0][0], ref[0][i]) for i in range(len(seeds)))
            elif how == "reverse":
                g = (-1.0 * f)
                a = self.call(f, sd, wrap=False, stream_dir=1, **kw)
                b = self.call(g, sd, wrap=False, stream_dir=2, **kw)
                ok = all(np.allclose(x, y[:, ::-1], rtol=0, atol=1e-9) for x, y in zip(a[0], b[0])) and np.array_equal(a[1], b[1])
            elif how == "failed":
                try:
                    self.call(f, sd, **dict(kw, method=rng.choice([99, "none"]), maxit=5))
                    return dict(same=False)
                except (ValueError, KeyError):
                    pass
                ok = eq(ref, self.call(f, sd, wrap=False, **kw))
            elif how == "field":
                ok = eq(ref, self.call(f, v.Point(sd), wrap=False, **kw)) and (sd.shape[1] == 3 or eq(ref, self.call(f, sd.T, wrap=False, **kw)))
            elif how == "layout":
                ok = eq(ref, self.call(f.as_flat(), sd, wrap=False, **kw)) and eq(ref, self.call(f.as_interlaced(), sd, wrap=False, **kw))
            elif how == "outs":
                a = self.call(f, sd, wrap=False, output=1, **kw)
                b = self.call(f, sd, wrap=False, output=2, **kw)
                ok = a[1] is None and b[0] is None and eq(ref, (a[0], b[1]))
            else:
                a = self.call(f, sd, wrap=False, stream_dir=1, **kw)
                b = self.call(f, sd, wrap=False, stream_dir=2, **kw)
                ok = all(np.array_equal(np.concatenate([y[:, :-1], x], axis=1), z) for x, y, z in zip(a[0], b[0], ref[0]))
            return dict(same=bool(ok))
        self.ev("same", fn, f, how=how, method=kw["method"])

    def translate(self):
        rng, np, v = self.rng, self.np, self.v
        f, seeds, n, vec = self.smooth()
        kw = dict(ds0=0.25, maxit=rng.choice([12, 80]), ibound=1.5, wrap=False)
        lin = lambda: np.linspace(-1.4, 1.4, 3)
        sd = np.array([[x, y, z] for x in lin() for y in lin() for z in lin()]).T

        def fn():
            g = self.call(f, sd, topo_style="generic", output=2, **kw)[1]
            m = self.call(f, sd, output=2, **kw)[1]
            return dict(gen=[int(x) for x in g], ms=[int(x) for x in m])
        self.ev("translate", fn, f)


def drive(rec, tier, rng, shard, nshards, gen):
    r = Run(rec, rng)
    n = 130 if tier == "quick" else 2000
    for k in range(n):
        rec.begin("p33/%d" % k)
        for _ in range(6):
            r.lattice()
        r.law()
        r.law()
        r.keep()
        r.along()
        r.same()
        r.translate()
