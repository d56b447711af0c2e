"""P44  nulls, clusters, meeting topologies and boundary frames are where the data has them"""
SPEC = "FeaturesTrace"
STATELESS = True
MC = [dict(name="lattice", module="FeaturesMC", cfg="FeaturesMC.cfg")]
SHARDS = {"quick": 4, "thorough": 8}
WALSH = [[1, 1, -1, -1], [1, -1, -1, 1], [1, -1, 1, -1]]


def det(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) +
            m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def whole(x, by=1):
    y = float(x) * by
    if not abs(y) < 9e6:
        return 9999999
    return int(round(y))


def near(x, by=1):
    """as whole, but only for a number that is almost whole"""
    y = float(x) * by
    return int(round(y)) if abs(y) < 1e8 and abs(y - round(y)) < 1e-3 else 999999999


class Driver(object):
    def __init__(self, rec, rng):
        import logging
        import warnings
        import numpy as np
        import viscid
        from viscid.calculator import cluster
        viscid.logger.setLevel(logging.CRITICAL)
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        self.rec, self.r, self.np, self.v, self.cl = rec, rng, np, viscid, cluster

    def axis(self, n, by=1, least=-6):
        r = self.r
        x = r.randrange(least, 3) * by
        out = []
        for _ in range(n):
            out.append(x)
            x += by * r.choice([1, 1, 2, 3])
        return out

    def field(self, axes, comps):
        np = self.np
        layout = self.r.choice(["interlaced", "flat"])
        dt = self.r.choice(["f8", "f8", "f4"])
        dat = np.array(comps).astype(dt)
        xyz = [np.array(a, dtype="f8") for a in axes]
        if layout == "interlaced":
            dat = np.ascontiguousarray(np.moveaxis(dat, 0, -1))
        return self.v.wrap_field(dat, self.v.wrap_crds("nonuniform_cartesian", list(zip("xyz", xyz))), name="b", fldtype="vector",
                                 center="node", layout=layout)

    def mixed(self):
        r = self.r
        q = r.random()
        if q < 0.35:      # each component along one axis, in any order
            p = r.sample(range(3), 3)
            return [[r.choice([1, -1, 2]) if p[i] == j else 0 for j in range(3)] for i in range(3)]
        while True:
            m = [[r.choice([-2, -1, 0, 1, 1, 2, 3]) for _ in range(3)] for _ in range(3)]
            if det(m) != 0:
                return m

    def nulls(self):
        r, np = self.r, self.np
        n = [r.choice([2, 4, 5]) for _ in range(3)]
        axes = [self.axis(k) for k in n]
        fs = [[r.choice([-1, 1]) * r.choice([7, 11, 13, 17, 19, 23, 31]) for _ in range(k)] for k in n]
        t = self.mixed()
        plain = r.random() < 0.5
        g = []
        for d in range(3):
            a = np.array(fs[d], dtype="f8").reshape([n[k] if k == d else 1 for k in range(3)])
            a = a * np.ones(n)
            if not plain:
                for k in range(3):
                    if k != d:
                        a = a * np.array([r.choice([1, 2, 3]) for _ in range(n[k])]).reshape([n[k] if q == k else 1 for q in range(3)])
            g.append(a)
        comps = [sum(t[i][j] * g[j] for j in range(3)) for i in range(3)]
        b2 = r.choice([0, 0, 0, 4, 9, 25])
        fld = self.field(axes, comps)
        try:
            i, p = self.v.find_nulls(fld, ibound=b2 ** 0.5)
            got = ["ok", [[int(x) for x in c] for c in np.array(i).T], [[near(x) for x in c] for c in np.array(p).T]]
        except Exception as e:     # pylint: disable=broad-except
            got = ["exc", type(e).__name__, str(e)[:80]]
        self.rec.ev(op="nulls", fs=fs, axes=axes, b2=b2, t=t, plain=plain, got=got)

    def kind(self):
        r, np = self.r, self.np
        n = [r.choice([4, 5, 6]) for _ in range(3)]
        axes = [self.axis(k) for k in n]
        r0 = [r.randrange(a[0] * 4 + 1, a[-1] * 4) for a in axes]
        r0 = [x + 1 if x % 4 == 0 else x for x in r0]
        m = self.mixed()
        m[2][2] = -m[0][0] - m[1][1]
        if det(m) == 0:
            return
        fs = [[4 * x - c for x in a] for a, c in zip(axes, r0)]
        g = np.meshgrid(*[np.array(f) / 4.0 for f in fs], indexing="ij")
        fld = self.field(axes, [sum(m[i][j] * g[j] for j in range(3)) for i in range(3)])
        try:
            d = self.v.find_classified_nulls(fld)
            got = ["ok", {k: [[int(x) for x in c] for c in np.array(d[k][0]).T] for k in "OAB"}]
        except Exception as e:     # pylint: disable=broad-except
            got = ["exc", type(e).__name__, str(e)[:80]]
        self.rec.ev(op="kind", fs=fs, axes=axes, m=m, got=got)
        for _ in range(2):
            i = [r.randrange(k) for k in n]
            try:
                j = self.v.calculator.calc.jacobian_at_ind(fld, *i)
                got = ["ok", [[near(x) for x in row] for row in j]]
            except Exception as e:     # pylint: disable=broad-except
                got = ["exc", type(e).__name__, str(e)[:80]]
            self.rec.ev(op="jacobian", m=m, at=i, got=got)

    def middles(self, p):
        p = self.np.asarray(p)
        if p.shape[0] != 2:
            return ["exc", "shape", str(p.shape)]
        return ["ok", [[whole(x, 100) for x in c] for c in p.T]]

    def clusters(self):
        r, np = self.r, self.np
        n = [r.choice([4, 5, 7, 9]) for _ in range(2)]
        axes = [self.axis(k) for k in n]
        per = [r.choice(["0", "0", False, "1", True, "+"]) for _ in range(2)]
        pd = [not (p == "0" or p is False) for p in per]
        ln = [(a[-1] - a[0] + (a[-1] - a[-2] if p == "+" else 0)) if q else 0 for a, p, q in zip(axes, per, pd)]
        pts = [[i, j] for i in range(n[0]) for j in range(n[1])]
        pts = r.sample(pts, r.choice([1, 2, 3, 4, 6, 9]))
        if r.random() < 0.5:
            pts.sort()
        diag = r.random() < 0.6
        multiple = r.random() < 0.85
        if not multiple:
            per, pd, ln = ["0", "0"], [False, False], [0, 0]
        try:
            q = self.cl.find_clusters([p[0] for p in pts], [p[1] for p in pts], np.array(axes[0], dtype="f8"), np.array(axes[1], dtype="f8"),
                                      multiple=multiple, periodic=per, diagonals=diag)
            got = self.middles(q)
        except Exception as e:     # pylint: disable=broad-except
            got = ["exc", type(e).__name__, str(e)[:80]]
        self.rec.ev(op="clusters", pts=pts, n=n, x=axes, pd=pd, per=[str(p) for p in per], len=ln, diag=diag, multiple=multiple, got=got)

    def meet(self):
        r, np = self.r, self.np
        n = [r.choice([2, 3, 4, 6]) for _ in range(2)]
        axes = [self.axis(k, 64) for k in n]
        k = r.choice([1, 2, 4])
        a = [[r.choice([1, 2, 4, 8]) if r.random() < 0.5 else k for _ in range(n[1])] for _ in range(n[0])]
        mask = r.choice([15, 15, 15, 0, 7])
        if r.random() < 0.3:
            for row in a:
                for j in range(len(row)):
                    row[j] += 16 * r.choice([0, 1])
        fld = self.v.arrays2field([np.array(x, dtype="f8") for x in axes], np.array(a, dtype="i4"), name="topo", center="node")
        val = r.choice([15, 15, 15, 7, 3])
        lo, hi = r.choice([(1, 5), (1, 5), (2, 6), (1, 1), (1, 2), (3, 6)])
        was = np.array(fld.data)
        try:
            q = self.v.topology_bitor_clusters(fld, min_depth=lo, max_depth=hi, sep_val=val, mask_limit=mask)
            got = self.middles(q)
        except Exception as e:     # pylint: disable=broad-except
            got = ["exc", type(e).__name__, str(e)[:80]]
        self.rec.ev(op="meet", a=a, x=axes, mask=mask, val=val, lo=lo, hi=hi, kept=bool((fld.data == was).all()), got=got)

    def colors(self):
        r, np = self.r, self.np
        t = [r.choice([0, 1, 2, 4, 8, 15, 3]) for _ in range(r.choice([1, 2, 5]))]
        bad = r.choice([None, None, (0.5, 0.25, 1.0)])
        form = r.choice(["list", "array", "one", "field"])
        try:
            if form == "one":
                t = t[:1]
                x = [self.v.topology2color(t[0], bad_color=bad)]
            elif form == "field":
                t = t + [1] if len(t) == 1 else t
                x = self.v.topology2color(self.v.arrays2field([np.arange(1.0 * len(t))], np.array(t), name="t"), bad_color=bad)
            else:
                x = self.v.topology2color(np.array(t) if form == "array" else t, bad_color=bad)
            got = ["ok", [[near(c, 100) for c in row] for row in x]]
        except Exception as e:     # pylint: disable=broad-except
            got = ["exc", type(e).__name__, str(e)[:80]]
        self.rec.ev(op="colors", t=t, other=[50, 25, 100] if bad else [0, 0, 0], form=form, got=got)

    def frame(self):
        r, np, v = self.r, self.np, self.v
        var = r.sample([1, 2, 3, 4, 5, 7, 9], 3)
        off = [r.randrange(-5, 6) for _ in range(3)]
        pat = r.sample(WALSH, 3)
        axes = [[r.choice([-3, 0, 2]) + 2 * k for k in range(4)], [0, 4], [-2, 2]]
        axes[0] = [axes[0][0] + 2 * k for k in range(4)]
        comps = [np.ones((4, 2, 2)) * (off[d] + var[d] * np.array(pat[d])).reshape(4, 1, 1) for d in range(3)]
        fld = self.field(axes, comps)
        n = sorted(range(3), key=lambda d: var[d])[0]
        basis = [0, 0, 0]
        if r.random() < 0.75:
            basis[r.choice([d for d in range(3) if d != n])] = r.choice([1, -1, 2, -3])
            basis[n] = r.choice([0, 0, 1, -2])
        else:
            basis[n] = r.choice([1, -1, 3, -2])
        p0, p1 = [axes[0][0], 1, 0.5], [axes[0][-1], 1, 0.5]
        try:
            around = r.random() < 0.4
            args = ([0.5 * (a + b) for a, b in zip(p0, p1)],) if around else (p0, p1)
            kw = dict(n=4)
            if around:
                kw.update(l=float(p1[0] - p0[0]), path_dir=r.choice([(1, 0, 0), (2, 0, 0)]))
            ev, ec = (v.minvar_around if around else v.minvar)(fld, *args, **kw)
            lmn = (v.find_minvar_lmn_around if around else v.find_minvar_lmn)(fld, *args, l_basis=basis, **kw)
            got = ["ok", dict(evals=[near(x) for x in ev], evecs=[[near(x) for x in c] for c in np.array(ec).T],
                              lmn=[[near(x) for x in c] for c in np.array(lmn).T])]
        except Exception as e:     # pylint: disable=broad-except
            got = ["exc", type(e).__name__, str(e)[:80]]
        self.rec.ev(op="frame", v=var, basis=basis, got=got)


def drive(rec, tier, rng, shard, nshards, gen):
    d = Driver(rec, rng)
    for k in range(120 if tier == "quick" else 150):
        rec.begin("features", k=k)
        for f in (d.nulls, d.nulls, d.nulls, d.kind, d.clusters, d.clusters, d.clusters, d.meet, d.meet, d.colors, d.frame):
            f()
