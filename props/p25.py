"""P25  coordinates objects"""
import random
SPEC = "CrdsTrace"
STATELESS = True
MC = [dict(name="c", module="CrdsMC", cfg="CrdsMC.cfg", tiers=("quick",)),
      dict(name="c", module="CrdsMC", cfg="CrdsMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 4, "thorough": 8}
U = 0.03125
USEC = 31250
T0 = "2010-06-30T23:59:50.000000"


class Case(object):
    """one coordinates object, built in one of the ways the library offers"""

    def __init__(self, rng):
        import numpy as np
        import viscid as v
        self.np, self.v, self.rng = np, v, rng
        nd = rng.choice([1, 2, 2, 3, 3, 3, 4])
        self.how = how = rng.choice(["auto", "auto", "non", "uni", "unifull", "withcc", "time", "auto"])
        even = how in ("uni", "unifull") or rng.random() < 0.3
        names = rng.choice([["x", "y", "z", "w"], ["x", "y", "z", "u"], ["a", "b", "c", "d"], ["r", "theta", "phi", "q"]])
        names = names[:]
        if nd < 4 and rng.random() < 0.6:
            k = sorted(rng.sample(range(3), min(3, nd)))
            names = [names[i] for i in k]
        self.names = names[:nd]
        self.ax = []
        refl = how != "time" and rng.random() < 0.25
        for d in range(nd):
            self.ax.append(self.axis(self.names[d], even, refl and rng.random() < 0.7))
        self.time = None
        if how == "time":
            self.time = rng.randrange(nd)
        arrs = [self.arr(d) for d in range(nd)]
        kw = {}
        rx = [a["name"] for a in self.ax if a["refl"]]
        if rx:
            kw["reflect_axes"] = rx
        self.units = None
        if rng.random() < 0.3:
            self.units = [rng.choice(["km", "", "Re"]) for _ in range(rng.randrange(0, nd + 1))]
            kw["units"] = list(self.units)
        if how in ("auto", "time"):
            self.c = v.arrays2crds(arrs, crd_names=self.names, **kw)
        elif how in ("non", "withcc"):
            cl = [[n, a] for n, a in zip(self.names, arrs)]
            if how == "withcc":
                for d, x in enumerate(self.ax):
                    if rng.random() < 0.7 and len(x["nc"]) > 1:
                        x["cc"] = [a + (b - a) // rng.choice([2, 4]) for a, b in zip(x["nc"][:-1], x["nc"][1:])]
                        cl[d].append(np.array(x["cc"], dtype="f8") * U)
            self.c = v.wrap_crds(rng.choice(["nonuniform", "nonuniform_cartesian", "Nonuniform_Spherical"]), cl, **kw)
        elif how == "uni":
            cl = [[n, [a[0], a[-1], len(a)]] for n, a in zip(self.names, arrs)]
            self.c = v.wrap_crds(rng.choice(["uniform", "uniform_cartesian", "uniform_spherical"]), cl, **kw)
        else:
            cl = [[n, a] for n, a in zip(self.names, arrs)]
            self.c = v.wrap_crds("uniform", cl, full_arrays=True, quiet_init=True, **kw)

    def axis(self, name, even, refl):
        rng = self.rng
        n = rng.choice([1, 2, 3, 4, 5])
        x = [8 * rng.randrange(-12, 8)]
        st = rng.choice([1, 2, 3])
        for _ in range(n - 1):
            x.append(x[-1] + 8 * (st if even else rng.choice([1, 2, 3, 6])))
        if rng.random() < 0.12:
            x.reverse()
        return dict(name=name, nc=x, cc=[], refl=bool(refl))

    def arr(self, d):
        np = self.np
        x = self.ax[d]["nc"]
        if self.time == d:
            return np.datetime64(T0) + np.array(x, dtype="i8") * np.timedelta64(USEC, "us")
        a = np.array(x, dtype="f8") * U
        return a

    # ---- encoding
    def num(self, v):
        np = self.np
        v = np.asarray(v)
        if v.dtype.kind == "O":
            v = np.asarray(v[()])
        if v.dtype.kind == "M":
            us = int((v.astype("M8[us]") - np.datetime64(T0)).astype("i8"))
            return us // USEC if us % USEC == 0 else 999999
        if v.dtype.kind == "m":
            us = int(v.astype("m8[us]").astype("i8"))
            return us // USEC if us % USEC == 0 else 999999
        if v.dtype.kind not in "fiu" or np.ma.is_masked(v):
            return 888888
        f = float(v) / U
        return int(round(f)) if abs(f - round(f)) < 1e-5 else 999999

    def seq(self, a):
        return [self.num(x) for x in a]


def drive(rec, tier, rng, shard, nshards, gen):
    for k in range(400 if tier == "quick" else 6000):
        rec.begin("crds/%d" % k)
        case(rec, rng)
    rec.begin("extend/all")
    for k in range(150 if tier == "quick" else 3000):
        extend(rec, rng)


def case(rec, rng):
    c = Case(rng)
    C, np, v = c.c, c.np, c.v
    nd = len(c.ax)

    def ev(op, fn, **kw):
        try:
            got = ["ok", fn()]
        except Exception as e:
            got = ["exc"]
            kw["text"] = "%s: %s" % (type(e).__name__, str(e)[:100])
        rec.ev(op=op, how=c.how, ax=c.ax, got=got, **kw)

    fld = None
    if c.how != "time" and not any(a["refl"] for a in c.ax):
        ctr = rng.choice(["node", "cell"])
        fld = v.zeros(C, center=ctr) if rng.random() < 0.8 else v.zeros(C, center=ctr, nr_comps=3)
    centers = ["none", "node", "cell"] + (["face", "edge"] if nd <= 3 and all(len(a["nc"]) > 1 for a in c.ax) else [])
    sfx = {"none": "", "node": "nc", "cell": "cc", "face": "fc", "edge": "ec"}
    for _ in range(6):
        i = rng.randrange(nd)
        center = rng.choice(centers)
        j = rng.randrange(min(nd, 3)) if center in ("face", "edge") else 0
        shaped = rng.random() < 0.4
        nm = c.names[i]
        s = rng.randrange(5)
        if fld is not None and rng.random() < 0.25:
            s = 9
        if s == 0:
            fn = lambda: C[(nm.upper() if shaped else nm) + sfx[center]]
        elif s == 1 and not shaped:
            fn = lambda: C.get_crd(i, center=center)
        elif s == 2:
            fn = lambda: C.get_crds([rng.choice([nm, i])], shaped=shaped, center=center)[0]
        elif s == 3:
            fn = lambda: C.get_crds(shaped=shaped, center=center.upper() if rng.random() < 0.2 else center)[i]
        elif s == 9:
            if center == "none":
                center = fld.center
            if rng.random() < 0.5:
                fn = lambda: getattr(fld, "get_crd_" + sfx[center])(nm, shaped=shaped)
            else:
                fn = lambda: getattr(fld, "get_crds_" + sfx[center])(shaped=shaped)[i]
        else:
            if center == "none":
                center = "node"
            f = getattr(C, "get_" + sfx[center])
            g = getattr(C, "get_crds_" + sfx[center])
            fn = (lambda: f(nm, shaped=shaped)) if s == 4 else (lambda: g([nm], shaped=shaped)[0])

        def enc(fn=fn, j=j, center=center):
            a = fn()
            if center in ("face", "edge"):
                a = a[j]
            return dict(shape=list(a.shape), v=c.seq(a.reshape(-1)))
        ev("arr", enc, i=i + 1, j=j + 1, center=center, shaped=shaped, route=s)
    bad = rng.choice(["q0", "xyz", "nc", "k"])
    ev("refused", lambda: str(rng.choice([lambda: C[bad], lambda: C.get_nc(bad), lambda: C.ind(bad), lambda: C.get_unit(bad)])()))
    center = rng.choice(["node", "cell"])
    short = "nc" if center == "node" else "cc"
    # (uniform coordinates count no cells along an axis with a single node)
    sc = center if not C.is_uniform() or all(len(a["nc"]) > 1 for a in c.ax) else "node"
    ss = "nc" if sc == "node" else "cc"
    ev("shape", lambda: [int(n) for n in getattr(C, "shape_" + ss)], center=sc)
    ev("shape", lambda: [int(n) for n in C.shape], center="node")
    ev("size", lambda: int(rng.choice([lambda: getattr(C, "size_" + ss), lambda: C.get_nr_points(center=sc)])()), center=sc)
    ev("xl", lambda: c.seq(rng.choice([lambda: getattr(C, "xl_" + short), lambda: C.get_xl(center=center)])()), center=center)
    ev("xh", lambda: c.seq(rng.choice([lambda: getattr(C, "xh_" + short), lambda: C.get_xh(center=center)])()), center=center)
    if c.how != "time":
        ev("L", lambda: c.seq(rng.choice([lambda: getattr(C, "L_" + short), lambda: C.get_L(center=center)])()), center=center)
    m = 1 if center == "node" else 2
    if all(len(a["nc"]) > m and a["nc"][1] > a["nc"][0] for a in c.ax):
        ev("dx", lambda: [c.seq(x) for x in C.get_dx(center=center)], center=center)
        if c.how != "time":
            ev("mindx", lambda: c.seq(rng.choice([lambda: getattr(C, "min_dx_" + short), lambda: C.get_min_dx(center=center)])()),
               center=center)
    if c.how != "time":
        npt = 1
        for a in c.ax:
            npt *= len(a["nc"])
        if npt <= 100:
            ev("points", lambda: [c.seq(p) for p in rng.choice([
                lambda: C.get_points(center=center).T, lambda: C.points(center=center).T,
                lambda: C.iter_points(center=center)])()], center=center)
            if fld is not None:
                ctr = fld.center
                ev("points", lambda: [c.seq(p) for p in rng.choice([
                    lambda: fld.get_points().T, lambda: fld.iter_points(),
                    lambda: np.array([q.reshape(-1) for q in fld.meshgrid()]).T,
                    lambda: np.array(fld.meshgrid_flat()).T,
                    lambda: np.array(np.broadcast_arrays(*fld.get_crds(shaped=True))).reshape(nd, -1).T])()], center=ctr)
        dflt = 16
        ev("nc2cc", lambda: [c.seq(x) for x in C.nc2cc(default_width=dflt * U).get_crds_nc()], dflt=dflt)
        cell = rng.random() < 0.5
        lo, hi = -16, rng.choice([16, 48])
        if nd <= 3:
            ev("at3d", lambda: [dict(name=a, nc=c.seq(x)) for a, x in
                                (lambda q: zip(q.axes, q.get_crds_nc()))(C.atleast_3d(xl=lo * U, xh=hi * U, cc=cell))],
               lo=lo, hi=hi, cell=cell)
    ev("clist", lambda: [dict(name=x[0], nc=c.seq(x[1])) for x in C.get_clist(full_arrays=True)], center="node")
    if C.is_uniform():
        ev("clist", lambda: [dict(name=x[0], nc=c.seq(np.linspace(*x[1]))) for x in C.get_clist(center=sc)], center=sc)
    else:
        ev("clist", lambda: [dict(name=x[0], nc=c.seq(x[1])) for x in C.get_clist(center=center)], center=center)
    if any(a["refl"] for a in c.ax):
        def applied():
            q = C.apply_reflections()
            return [dict(name=a, nc=c.seq(x)) for a, x in zip(q.axes, q.get_crds(center=center))]
        ev("clist", applied, center=center, what="apply_reflections")
    if c.how == "auto":
        ev("kind", lambda: bool(C.is_uniform()))
    ev("names", lambda: list(C.axes))
    i = rng.randrange(nd)
    ev("ind", lambda: C.ind(rng.choice([i, c.names[i]])), i=i + 1)
    ig = rng.choice([0, 1, 2, 3])
    ev("culled", lambda: list(C.get_culled_axes(ignore=ig) if ig != 2 else C.get_culled_axes()), ignore=ig)
    ev("units", lambda: [C.get_unit(n) for n in C.axes] if rng.random() < 0.5 else list(C.units), units=c.units or [])
    sel, exp = [], []
    for d in range(nd):
        a, b = sorted(rng.sample(range(-100, 100), 2))
        x, y = (a, b) if rng.random() < 0.7 else (b, a)
        if rng.random() < 0.25:
            sel.append("%s=%rj" % (c.names[d], x * U))
            exp.append([x, x])
        else:
            sel.append("%s=%rj:%rj" % (c.names[d], x * U, y * U))
            exp.append([a, b])
    ev("extent", lambda: [c.seq(p) for p in C.get_slice_extent(", ".join(sel)).T], exp=exp, spelling=", ".join(sel))


def extend(rec, rng):
    import numpy as np
    import viscid as v
    n = rng.choice([1, 2, 3, 5])
    x = [16 * rng.randrange(-10, 10)]
    full = rng.random() < 0.7
    st = rng.choice([1, 2])
    for _ in range(n - 1):
        x.append(x[-1] + 16 * (rng.choice([1, 2, 4]) if full else st))
    if rng.random() < 0.2:
        x.reverse()
    lo, hi = rng.randrange(0, 4), rng.randrange(0, 4)
    num, den = rng.choice([(1, 1), (1, 2), (1, 4), (2, 1)]) if full else (1, 1)
    w = []
    kw = {}
    if full and rng.random() < 0.3:
        w = [16 * rng.randrange(0, 3) for _ in range(2)]
        w = sorted(set(w + [w[-1] + 16]))
        kw["width_arr"] = np.array(w) * U
    if rng.random() < 0.3:
        lo = hi
        kw["n"] = hi
    else:
        kw["n"] = (lo, hi)
    if rng.random() < 0.2 and lo == hi == 1:
        del kw["n"]
    kw["default_width"] = 8 * U
    if (num, den) != (1, 1):
        kw["cell_fraction"] = num / den

    def fn():
        if full:
            dt = "f4" if rng.random() < 0.2 else "f8"
            r = v.extend_arr(np.array(x, dtype=dt) * np.array(U, dtype=dt), **kw)
        else:
            a = np.array([x[0] * U, x[-1] * U, n])
            r = v.extend_arr(a, full_arr=False, **kw)
            r = np.linspace(r[0], r[1], int(r[2]))
        return [int(round(float(q) / U)) if abs(float(q) / U - round(float(q) / U)) < 1e-4 else 999999 for q in r]
    ev = dict(op="extend", ax=[], x=x, w=w, lo=lo, hi=hi, num=num, den=den, dflt=8, full=full)
    try:
        ev["got"] = ["ok", fn()]
    except Exception as e:
        ev["got"] = ["exc"]
        ev["text"] = repr(e)[:200]
    rec.ev(**ev)
