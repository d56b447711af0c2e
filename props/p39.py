"""P39  a field in patches is one field"""
from falg import decode, whole
SPEC = "AmrTrace"
STATELESS = True
MC = [dict(name="a", module="AmrMC", cfg="AmrMC.cfg"),
      dict(name="big", module="AmrMC", cfg="AmrMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 6, "thorough": 8}
U = 4
LOW, HIGH = -100000000, 10000000000


def milli(np, x):
    y = np.asarray(x, dtype="f8") * 1000
    return [int(round(float(a))) if np.isfinite(a) and abs(a) < 4e4 else 44444 for a in y.ravel()]


class Run(object):
    def __init__(self, rec, rng):
        import numpy as np
        import viscid
        from viscid.amr_field import AMRField
        from viscid.amr_grid import AMRGrid, AMRSkeleton, dataset_to_amr_grid
        self.np, self.v, self.rec, self.rng = np, viscid, rec, rng
        self.AMRField, self.AMRGrid, self.AMRSkeleton, self.to_grid = AMRField, AMRGrid, AMRSkeleton, dataset_to_amr_grid

    # -------------------------------------------------------------- patches
    def boxes(self, full=True, far=False):
        """a box in parts, positions in half units"""
        rng = self.rng
        lo = [rng.choice([-8, 0, -4, 3]) for _ in range(3)]
        if far:
            k = rng.randrange(3)
            lo[k] += rng.choice([1, -1]) * 2 ** 20
        size = [rng.choice([8, 16]) for _ in range(3)]
        thin = [False] * 3
        if rng.random() < 0.25:
            thin[rng.randrange(3)] = True
        parts = [(lo, [a + s for a, s in zip(lo, size)])]
        for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
            i = rng.randrange(len(parts))
            a, b = parts[i]
            ks = [k for k in range(3) if b[k] - a[k] >= 8 and not thin[k]]
            if not ks:
                continue
            k = rng.choice(ks)
            m = a[k] + 4 * ((b[k] - a[k]) // 8) if rng.random() < 0.7 else a[k] + 4 * rng.randrange(1, (b[k] - a[k]) // 4)
            parts[i] = (a, b[:k] + [m] + b[k + 1:])
            parts.append((a[:k] + [m] + a[k + 1:], b))
        if rng.random() < 0.5:
            rng.shuffle(parts)
        if not full and len(parts) > 3 and rng.random() < 0.4:
            parts.pop(rng.randrange(len(parts)))
        self.thin = thin
        return parts

    def make(self, full=True, same=False, nc=None, small=False, center=None, vals=None, const=None, far=False):
        """an AMR field, and the record of its patches"""
        rng, np, v = self.rng, self.np, self.v
        parts = self.boxes(full, far and self.rng.random() < 0.3)
        center = center or rng.choice(["node", "node", "cell"])
        nc = rng.choice([0, 0, 0, 3]) if nc is None else nc
        dt = rng.choice(["f8", "f8", "f4", "i8", "i4"])
        shape = [rng.choice([1, 2]) if small else rng.choice([1, 2, 2, 4]) for _ in range(3)]
        recs, flds, grids = [], [], []
        lay = rng.choice(["flat", "interlaced"])
        for ip, (a, b) in enumerate(parts):
            nodes, dims = [], []
            for k in range(3):
                if self.thin[k]:
                    # one place (or one narrow cell) along this axis
                    nodes.append([a[k]] if center == "node" else [a[k], a[k] + 2])
                    dims.append(1)
                    continue
                n = shape[k] if same else rng.choice([1, 2] if small else [1, 2, 2, 4])
                if k == (1 if self.thin[0] else 0) or const is not None:
                    n = max(n, 2)  # never a single value
                while (b[k] - a[k]) % (2 * n):
                    n //= 2
                n = max(n, 1)
                st = (b[k] - a[k]) // n
                x = [a[k] + st * i for i in range(n + 1)]
                if (b[k] - a[k]) % 2:
                    raise RuntimeError
                if n == 2 and st >= 4 and rng.random() < 0.3:
                    x[1] += rng.choice([-2, 2])
                nodes.append(x)
                dims.append(n + (center == "node"))
            sh = dims + ([nc] if nc else [])
            m = int(np.prod(sh))
            if const is not None:
                vs = [q for _ in range(m // 3) for q in const[ip]]
            else:
                vs = [rng.choice(vals) if vals else rng.randrange(-6, 7) for _ in range(m)]
            at = [p if center == "node" else [(x + y) // 2 for x, y in zip(p[:-1], p[1:])] for p in nodes]
            recs.append(dict(ax=[dict(n=c, p=p) for c, p in zip("xyz", at)], nc=nc, v=vs,
                             lo=[p[0] for p in nodes], hi=[p[-1] for p in nodes], n=dims))
            arr = np.array(vs, dtype=dt).reshape(sh)
            crds = v.arrays2crds([0.5 * np.array(p, dtype="f8") for p in nodes], crd_names="xyz")
            if nc:
                arr = np.ascontiguousarray(np.moveaxis(arr, -1, 0))
                f = v.wrap_field(arr, crds, name="q", fldtype="vector", center=center, time=3.0, _force_layout="flat")
                if lay == "interlaced":
                    f = f.as_interlaced()
            else:
                f = v.wrap_field(arr, crds, name="q", center=center, time=3.0)
            g = v.grid.Grid(time=3.0)
            g.set_crds(crds)
            g.add_field(f)
            flds.append(f)
            grids.append(g)
        self.center, self.nc, self.grids, self.dt = center, nc, grids, dt
        skel = self.AMRSkeleton(grids) if rng.random() < 0.9 or const is not None else None
        return self.AMRField(flds, skel), recs, flds

    def enc(self, r):
        if isinstance(r, self.AMRField):
            if r.nr_patches != len(r.patches):
                return ["exc", "count", ""]
            return ["amr", [self.enc(p) for p in r.patches]]
        if isinstance(r, (list, tuple)):
            return ["list", [self.enc(x) for x in r]]
        d = decode(r, 1)
        return d

    def strip(self, d):
        """patches as plain fields"""
        if d[0] == "amr" and all(x[0] == "fld" for x in d[1]):
            return ["amr", [x[1] for x in d[1]]]
        return d

    def tri(self, fn):
        try:
            return self.enc(fn())
        except Exception as e:
            return ["exc", type(e).__name__, str(e)[:100]]

    def state(self, F):
        return [[self.np.array(p.data).tolist(), [list(map(float, c)) for c in p.get_crds_nc()], p.layout] for p in F.patches]

    # --------------------------------------------------------------- events
    def skel(self):
        rng, np = self.rng, self.np
        _, recs, _ = self.make(full=False, far=True)
        grids = self.grids
        thin = any(self.thin)
        how = rng.randrange(4)
        tmpl = None
        if how >= 2:
            # a skeleton of other patches is offered for reuse
            if how == 2:
                self.make()
                tmpl = self.AMRSkeleton(self.grids)
            else:
                other = [(list(r["lo"]), list(r["hi"])) for r in recs]
                k = rng.randrange(3)
                i = rng.randrange(len(other))
                gs = []
                for j, g in enumerate(grids):
                    cl = [np.array(c) for c in g.crds.get_crds_nc()]
                    if j == i and len(cl[k]) > 1:
                        m = rng.randrange(3)
                        if m == 0:
                            cl[k] = cl[k][0] + (cl[k] - cl[k][0]) * 2
                        elif m == 1:
                            cl[k] = cl[k] + 4.0
                        else:
                            cl[k] = cl[k][0] + (cl[k] - cl[k][0]) * 0.5
                    h = self.v.grid.Grid(time=1.0)
                    h.set_crds(self.v.arrays2crds(cl, crd_names="xyz"))
                    gs.append(h)
                tmpl = self.AMRSkeleton(gs)

        def get():
            if how == 0:
                sk = self.AMRSkeleton(grids)
                gl, gh = sk.global_xl, sk.global_xh
            else:
                if how == 1 or rng.random() < 0.3:
                    ag = self.AMRGrid(grids, skeleton=tmpl)
                else:
                    ag, yes = self.to_grid(self.coll(grids), tmpl)
                    if not yes:
                        if len(grids) > 1:
                            raise RuntimeError("not AMR")
                        ag = self.AMRGrid(grids)
                sk = ag.skeleton
                gl, gh = ag.xl_nc, ag.xh_nc
            nr = [int(x) for x in sk.nr_neighbors]
            return ["ok", dict(nr=nr, nb=[[int(x) for x in r[:c]] for r, c in zip(sk.neighbors, nr)],
                               mask=[[int(x) for x in r[:c]] for r, c in zip(sk.neighbor_mask, nr)],
                               gl=whole(gl, 2), gh=whole(gh, 2))]
        try:
            got = get()
        except Exception as e:
            got = ["exc", type(e).__name__, str(e)[:100]]
        self.rec.ev(op="skel", b=[dict(lo=r["lo"], hi=r["hi"]) for r in recs], thin=thin, got=got, pure=True)

    def coll(self, grids):
        return self.v.dataset.Dataset(*grids, name="patches")

    def selection(self, recs):
        rng = self.rng
        lo = [min(r["lo"][k] for r in recs) for k in range(3)]
        hi = [max(r["hi"][k] for r in recs) for k in range(3)]
        sel, txt = [], []
        for k, a in enumerate("xyz"):
            places = sorted(set(x for r in recs for x in (r["lo"][k], r["hi"][k])))
            pick = lambda: rng.choice(places) if rng.random() < 0.5 else rng.randrange(lo[k] - 2, hi[k] + 3)
            m = rng.choice([0, 0, 1, 2, 2])
            if m == 0:
                sel.append([])
                if rng.random() < 0.3:
                    txt.append("%s=:" % a)
            elif m == 1:
                t = min(max(pick(), lo[k]), hi[k])
                sel.append([t])
                txt.append("%s=%.10gj" % (a, 0.5 * t))
            else:
                s, t = sorted([pick(), pick()])
                if s == t:
                    t += 1
                e = rng.randrange(4)
                sel.append([LOW if e == 1 else s, HIGH if e == 2 else t])
                txt.append("%s=%s:%s" % (a, "" if e == 1 else "%.10gj" % (0.5 * s), "" if e == 2 else "%.10gj" % (0.5 * t)))
        return sel, txt

    def slice(self):
        rng = self.rng
        F, recs, flds = self.make(full=False, far=True)
        sel, txt = self.selection(recs)
        if self.nc and rng.random() < 0.3:
            txt.insert(0, rng.choice("xyz"))
            if all(not s for s in sel):
                txt.append("y=:")
        if rng.random() < 0.1:
            txt.insert(rng.randrange(len(txt) + 1) if len(txt) and "=" in txt[0] else len(txt), "w=newaxis")
        txt = ",".join(txt) or "x=:"
        m = rng.choice(["getitem", "slice", "slice_reduce", "slice_and_keep"])
        fn = (lambda f: f[txt]) if m == "getitem" else (lambda f: getattr(f, m)(txt))
        before = self.state(F)
        one = [self.tri(lambda: fn(f)) for f in flds]
        each = [self.tri(lambda: f.slice(txt)) for f in flds] if m == "slice_reduce" else one
        if rng.random() < 0.2:
            g = self.AMRGrid(self.grids)
            fn2 = (lambda: g.get_field("q", slc=txt)) if m == "slice_and_keep" else (lambda: fn(g["q"]))
            got = self.tri(fn2)
        else:
            got = self.tri(lambda: fn(F))
        # what is outside
        self.rec.ev(op="slice", b=[dict(lo=r["lo"], hi=r["hi"]) for r in recs], sel=sel, how=m, txt=txt, each=each, one=one, got=got,
                    pure=self.state(F) == before)

    def second(self, F, flds, recs):
        """another field on the same patches, or on one patch for all"""
        np, rng = self.np, self.rng
        out, rr = [], []
        for f, r in zip(flds, recs):
            vs = [rng.choice([1, 2, 3, 5]) for _ in r["v"]]
            arr = np.array(vs, dtype=f.dtype).reshape([len(a["p"]) for a in r["ax"]] + ([r["nc"]] if r["nc"] else []))
            g = f.as_flat() if r["nc"] else f
            if r["nc"]:
                arr = np.ascontiguousarray(np.moveaxis(arr, -1, 0))
            out.append(g.wrap(arr) if not r["nc"] else self.v.wrap_field(arr, f.crds, name="r", fldtype="vector", center=f.center,
                                                                         _force_layout="flat"))
            q = dict(r)
            q["v"] = vs
            rr.append(q)
        return out, rr

    def arith(self):
        rng, np, op = self.rng, self.np, None
        import operator
        uf = rng.random() < 0.3
        F, recs, flds = self.make(same=uf)
        shapes = set(f.shape for f in flds)
        one = len(shapes) == 1 and rng.random() < 0.2
        G, gr = self.second(F, flds, recs)
        if one:
            G, gr = G[:1], gr[:1]
        A = self.AMRField(G, F.skeleton)
        before = self.state(F), self.state(A)
        un = rng.random() < 0.2
        uf = uf and len(shapes) == 1 and len(flds) > 1 and not one
        if un:
            f = rng.choice(["neg", "abs", "pos", "square"] if uf else ["neg", "abs", "pos"])
            if uf and f != "pos":
                fn = dict(neg=np.negative, abs=np.absolute, square=np.square)[f]
            else:
                fn = dict(neg=operator.neg, abs=operator.abs, pos=operator.pos)[f]
            x, y = ["amr", recs], ["num", 0]
            got = self.tri(lambda: fn(F))
        else:
            form = rng.randrange(3)
            n = rng.choice([1, 2, 3])
            X, x = (F, ["amr", recs]) if form < 2 else (n, ["num", n])
            Y, y = (A, ["amr", gr]) if form == 0 else (n, ["num", n]) if form == 1 else (A, ["amr", gr])
            if form == 2 and one:
                Y, y = F, ["amr", recs]
            ops = dict(add=operator.add, sub=operator.sub, mul=operator.mul, floordiv=operator.floordiv, mod=operator.mod,
                       lt=operator.lt, le=operator.le, gt=operator.gt, ge=operator.ge, eq=operator.eq, ne=operator.ne, pow=operator.pow,
                       iadd=operator.iadd, isub=operator.isub, imul=operator.imul)
            ufs = dict(uadd=np.add, usub=np.subtract, umul=np.multiply, max=np.maximum, lt=np.less)
            if uf and form < 2:
                f = rng.choice(sorted(ufs))
                fn = ufs[f]
            else:
                f = rng.choice(sorted(ops))
                if f == "pow" and (form != 1):
                    f = "add"
                if form == 2 and (f in ("iadd", "isub", "imul") or (y[1] is recs and f in ("floordiv", "mod"))):
                    f = "sub"
                fn = ops[f]
            got = self.tri(lambda: fn(X, Y))
        got = self.strip(got)
        self.rec.ev(op="arith", f=f, un=un, uf=uf, x=x, y=y, got=got, pure=(self.state(F), self.state(A)) == before)

    def reduce(self):
        rng, np = self.rng, self.np
        f = rng.choice(["max", "min", "sum", "ptp", "mean", "std", "any", "all", "prod"])
        F, recs, flds = self.make(small=True, nc=0, vals=[1] * 20 + [2, -1, -1] if f == "prod" else [0, 0, 0, 1] if rng.random() < 0.3 else None)
        if sum(len(r["v"]) for r in recs) > 140 and f == "std":
            f = "sum"
        if f == "prod" and sum(x == 2 for r in recs for x in r["v"]) > 9:
            f = "sum"
        before = self.state(F)
        nm = rng.random() < 0.3 and len(set(p.shape for p in flds)) == 1 and len(flds) > 1

        def go():
            r = getattr(np, f)(F) if nm else getattr(F, f)()
            return float(r) ** 2 if f == "std" else float(r)
        try:
            r = go()
            got = ["num", int(round(1000 * r)) if abs(r) < 2e6 else 999999999]
        except Exception as e:
            got = ["exc", type(e).__name__, str(e)[:100]]
        self.rec.ev(op="reduce", f=f, np=nm, x=[dict(v=r["v"]) for r in recs], got=got, pure=self.state(F) == before)

    def each(self):
        rng = self.rng
        F, recs, flds = self.make()
        before = self.state(F)
        ms = [lambda f: f.as_cell_centered(), lambda f: f.astype("f4"), lambda f: f.flatten() if False else f.as_node_centered() if hasattr(f, "as_node_centered") else f,
              lambda f: f.as_flat() if self.nc else f.astype("f8"), lambda f: f.as_interlaced() if self.nc else f.astype("i8"),
              lambda f: f.clip(min=-2, max=2), lambda f: f.max(axis=0) if not self.nc else f.as_c_contiguous() if hasattr(f, "as_c_contiguous") else f.astype("f8"),
              lambda f: f.sum(axis=1) if not self.nc else f.astype("f8"), lambda f: f.round(), lambda f: f.cumsum(axis=0) if not self.nc else f.round()]
        k = rng.randrange(len(ms))
        if self.nc:
            ms.append(lambda f: f["x"])
            k = rng.randrange(len(ms))
        each = [self.tri(lambda: ms[k](f)) for f in flds]
        if any(e[0] != "fld" for e in each):
            return
        if any(len(e[1]["v"]) == 1 for e in each):
            return
        got = self.tri(lambda: ms[k](F))
        if len(flds) == 1 and got[0] == "fld":
            got = ["amr", [got]]
        self.rec.ev(op="each", k=k, each=each, got=got, pure=self.state(F) == before)

    def plain(self):
        rng, np = self.rng, self.np
        F, recs, flds = self.make(same=rng.random() < 0.5)
        k = rng.choice(["name", "center", "nr_comps", "nr_patches", "time", "xl", "xh", "shape", "nr_dims", "layout"])
        if k in ("xl", "xh"):
            want = [(min if k == "xl" else max)(r["lo" if k == "xl" else "hi"][i] for r in recs) for i in range(3)]
            try:
                got = whole(getattr(F, k), 2)
            except Exception as e:
                got = ["exc", type(e).__name__, str(e)[:100]]
        else:
            vs = [getattr(f, k) if k != "nr_patches" else len(flds) for f in flds]
            vs = [list(x) if isinstance(x, tuple) else x for x in vs]
            want = str(vs[0]) if all(x == vs[0] for x in vs) else "ValueError"
            try:
                got = getattr(F, k)
                got = str(list(got) if isinstance(got, tuple) else got)
            except ValueError as e:
                got = "ValueError"
            except Exception as e:
                got = "%s" % type(e).__name__
        self.rec.ev(op="plain", k=k, got=got, want=want, pure=True)

    def interp(self):
        rng, np, v = self.rng, self.np, self.v
        F, recs, flds = self.make()
        if F.skeleton is None:
            F.skeleton = self.AMRSkeleton(self.grids)
        before = self.state(F)
        n = rng.randrange(1, 9)
        pts = []
        for _ in range(n):
            r = rng.choice(recs)
            if pts and rng.random() < 0.2:
                pts.append(rng.choice(pts))
                continue
            pts.append([U * rng.choice(r["ax"][k]["p"]) if rng.random() < 0.2 else rng.choice([U * r["lo"][k], U * r["hi"][k]])
                        if rng.random() < 0.2 else rng.randrange(U * r["lo"][k], U * r["hi"][k] + 1) for k in range(3)])
        arr = 0.125 * np.array(pts, dtype="f8").T
        kind = rng.choice(["linear", "linear", "nearest"])
        wrap = rng.random() < 0.3
        try:
            if rng.random() < 0.5:
                r = v.interp(F, v.Point(arr), kind=kind, wrap=wrap)
            else:
                r = (v.interp_trilin if kind == "linear" else v.interp_nearest)(F, v.Point(arr), wrap=wrap)
            got = ["ok", milli(np, r.data if wrap else r)]
        except Exception as e:
            got = ["exc", type(e).__name__, str(e)[:100]]
        self.rec.ev(op="interp", dt=self.dt, lay=flds[0].layout, cen=self.center, b=recs, kind=kind, pts=pts, got=got, pure=self.state(F) == before)

    def stream(self):
        rng, np, v = self.rng, self.np, self.v
        dirs = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1]]
        bias = rng.choice(dirs)
        const = [rng.choice(dirs) if rng.random() < 0.5 else bias for _ in range(12)]
        if rng.random() < 0.1:
            const[rng.randrange(3)] = [0, 0, 0]
        F, recs, flds = self.make(nc=3, const=const)
        before = self.state(F)
        lo = [U * min(r["lo"][k] for r in recs) for k in range(3)]
        hi = [U * max(r["hi"][k] for r in recs) for k in range(3)]
        seed = [rng.randrange(lo[k], hi[k] + 1) for k in range(3)]
        if rng.random() < 0.3:
            r = rng.choice(recs)
            k = rng.randrange(3)
            seed[k] = U * r["lo"][k]
        maxit = rng.choice([20, 60])
        kw = dict(maxit=maxit, method=rng.choice(["euler1", "euler"]), ibound=0.0)
        sd = rng.choice([1, 2, 3])
        kw["stream_dir"] = {1: v.DIR_FORWARD, 2: v.DIR_BACKWARD, 3: v.DIR_BOTH}[sd]
        nodes = [[c for c in f.get_crds_nc()] for f in flds]
        if any(self.thin):
            ds = rng.choice([1, 3, 4])
            kw["ds0"] = 0.125 * ds
        elif rng.random() < 0.6:
            ds = rng.choice([1, 3, 4, 7])
            kw["ds0"] = 0.125 * ds
        else:
            cs = nodes
            d = [float(np.min(np.diff(c))) for q in cs for c in q if len(c) > 1]
            if not d:
                d = [1.0]
                kw["ds0"] = 1.0
                ds = 8
            else:
                kw["ds0_frac"] = 0.5
                ds = 4 * min(d)
                if any(len(c) == 1 for q in cs for c in q) or ds != int(ds):
                    kw["ds0"] = 0.5
                    ds = 4
                ds = int(ds)
        try:
            lines, topo = v.calc_streamlines(F, v.Point(0.125 * np.array([seed], dtype="f8").T), **kw)
            L = np.asarray(lines[0]).T
            got = ["ok", [whole(p, 8) for p in L]]
        except Exception as e:
            got = ["exc", type(e).__name__, str(e)[:100]]
        self.rec.ev(op="stream", cen=self.center, b=[dict(lo=r["lo"], hi=r["hi"], n=r["n"]) for r in recs], dir=const[:len(recs)], seed=seed, ds=ds, maxit=maxit,
                    dirs=sd, got=got, dt=self.dt, kw=str(kw), pure=self.state(F) == before)


def drive(rec, tier, rng, shard, nshards, gen):
    import logging
    import warnings
    warnings.simplefilter("ignore")
    r = Run(rec, rng)
    r.v.logger.setLevel(logging.CRITICAL)
    n = 60 if tier == "quick" else 900
    for k in range(n):
        rec.begin("p39/%d" % k)
        r.skel()
        r.slice()
        r.slice()
        r.arith()
        r.reduce()
        r.each()
        r.plain()
        r.interp()
        r.stream()
