"""P26  parts, layouts, orders of axes and makers of fields"""
import falg
from falg import Made, attempt, decode
SPEC = "FieldAlgTrace"
STATELESS = True
MC = [dict(name="a", module="FieldAlgMC", cfg="FieldAlgMC.cfg", tiers=("quick",)),
      dict(name="a", module="FieldAlgMC", cfg="FieldAlgMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 5, "thorough": 8}


class Cur(object):
    """the field a chain has come to"""

    def __init__(self, f, got, loaded=True):
        self.f, self.loaded = f, loaded
        g = got[1]
        self.rec = dict(ax=g["ax"], nc=g["nc"], v=g["v"])
        self.center, self.lay, self.time = g["center"], g["lay"], g["time"]
        self.dims = [len(a["p"]) for a in g["ax"]]
        self.names = [a["n"].split("[")[0] for a in g["ax"]]


class Run(object):
    def __init__(self, rec, rng):
        import numpy as np
        import viscid
        self.np, self.v, self.rec, self.rng = np, viscid, rec, rng

    def ev(self, cur, op, fn, lay="any", sc=1, pure=True, contig=None, shares=None, time=None, center=None, whole=True, **kw):
        np = self.np
        before = cur.f.data.copy() if cur is not None and cur.loaded else None
        got, r = attempt(fn, sc)
        ok = pure if isinstance(pure, bool) else pure()
        if before is not None:
            ok = ok and np.array_equal(before, cur.f.data)
        isf = isinstance(r, self.v.field.Field)
        if contig and isf:
            kw["contig"] = bool(r.data.flags["C_CONTIGUOUS"])
        if shares is not None and isf:
            kw["shares"] = bool(np.shares_memory(r.data, cur.f.data)) == shares
        if cur is not None:
            kw.setdefault("a", cur.rec)
        self.rec.ev(op=op, sc=sc, got=got, pure=bool(ok), center=center or cur.center,
                    time=cur.time if time is None else time, whole=whole, lay=lay, **kw)
        if isf and got[0] == "fld":
            return Cur(r, got)
        return None

    def chain(self, k):
        rng, np, v = self.rng, self.np, self.v
        m = Made(rng, cube=rng.random() < 0.15, refl=rng.random() < 0.2)
        if rng.random() < 0.3:
            # not looked at before
            g = dict(m.rec, center=m.center, lay=m.lay, time=m.time)
            c = Cur(m.f, ["fld", g], loaded=False)
        else:
          c = self.ev(None, "same", lambda: m.f, a=m.rec, center=m.center, time=m.time, lay=m.lay if m.nc else "any", how="made")
        for _ in range(rng.choice([1, 2, 3, 4])):
            if c is None:
                break
            n = self.step(c)
            c = n or c

    def step(self, c):
        rng, np, v = self.rng, self.np, self.v
        nd = len(c.dims)
        F = c.f
        kinds = ["perm", "perm", "layout", "contig", "plus"]
        if c.rec["nc"]:
            kinds += ["comp", "comp", "views", "join"]
        else:
            kinds += ["halve", "join2"]
        what = rng.choice(kinds)
        if what == "perm":
            return self.perm(c)
        if what == "layout":
            to = rng.choice(["flat", "interlaced"])
            how = rng.randrange(3)
            fn = [lambda: F.as_layout(to), lambda: getattr(F, "as_" + to)(), lambda: F.as_layout(to, force_c_contiguous=False)][how]
            return self.ev(c, "same", fn, lay=to if c.rec["nc"] else "any", contig=how != 2, how="as_" + to)
        if what == "contig":
            return self.ev(c, "same", lambda: F.as_c_contiguous(), lay=c.lay if c.rec["nc"] else "any", contig=True, how="as_c_contiguous")
        if what == "plus":
            x = rng.randrange(-3, 4)
            return self.ev(c, "bin", lambda: F + x, f="add", b=dict(k="num", x=x), lay=c.lay if c.rec["nc"] else "any", how="plus", whole=False)
        if what == "comp":
            i = rng.randrange(c.rec["nc"])
            way = rng.choice(["name", "list", "fields", "slice"])
            nm = "xyzuvw"[i]
            if way == "name":
                fn = lambda: F[nm]
            elif way == "list":
                fn = lambda: F[nm.upper()] if False else F[nm]
            elif way == "fields":
                fn = lambda: F.component_fields()[i]
            else:
                pos = nm if way == "slice" else i
                key = [slice(None)] * nd
                key.insert(0 if c.lay == "flat" else nd, pos)
                fn = lambda: F[tuple(key)]
            return self.ev(c, "comp", fn, c=i + 1, shares=True, how=way)
        if what == "views":
            i = rng.randrange(c.rec["nc"])

            def view():
                w = F.component_views()[i]
                if not np.shares_memory(w, F.data):
                    raise RuntimeError("not a view")
                if list(w.shape) != c.dims:
                    raise RuntimeError("shape %r" % (w.shape,))
                return np.array(w)
            self.ev(c, "compview", view, c=i + 1, how="views")
            return None
        if what == "join":
            # taken apart and put together again, maybe in another order
            o = list(range(c.rec["nc"]))
            rng.shuffle(o)
            return self.ev(c, "join", lambda: v.scalar_fields_to_vector([F.component_fields()[i] for i in o], name="w"),
                           q=[self.comp(c, i) for i in o], how="apart")
        if what == "join2":
            n = rng.choice([2, 3])
            q, fl = [], []
            for j in range(n):
                x = rng.randrange(-2, 3)
                q.append(dict(c.rec, v=[y + x for y in c.rec["v"]]))
                g = F + x
                if not isinstance(g, v.field.Field):
                    return None
                fl.append(g if rng.random() < 0.7 else g.astype("f4"))
            return self.ev(c, "join", lambda: v.scalar_fields_to_vector(fl, name="w"), q=q, how="join")
        if what == "halve":
            if any(d < 2 for d in c.dims) or c.center == "node" or nd > 3:
                return None
            nodes = [self.np.rint(2 * x).astype(int).tolist() for x in F.get_crds_nc()]
            nax = [dict(n=A["n"], p=[(x[2 * i] + x[2 * i + 2]) // 2 for i in range(len(x) // 2 - (len(x) % 2 == 0))])
                   for A, x in zip(c.rec["ax"], nodes)]
            if any((x[2 * i] + x[2 * i + 2]) % 2 for x in nodes for i in range((len(x) - 1) // 2)):
                return None
            self.ev(c, "halve", lambda: F.downsample(), sc=2 ** nd, nax=nax, how="downsample", whole=False)
            return None

    def comp(self, c, i):
        return dict(ax=c.rec["ax"], nc=0, v=c.rec["v"][i::c.rec["nc"]])

    def perm(self, c):
        rng, np = self.rng, self.np
        nd = len(c.dims)
        F = c.f
        nc = c.rec["nc"]
        p = list(range(nd))
        way = rng.choice(["crds", "crds", "crdsT", "TC", "T", "np", "npT", "swap", "swapcrd", "full"])
        names = c.names
        lay = c.lay if nc else "any"
        flip = dict(flat="interlaced", interlaced="flat").get(c.lay, "any")
        kw = {}
        if way == "crds":
            rng.shuffle(p)
            args = [rng.choice([names[i], i]) for i in p]
            fn = lambda: F.transpose_crds(*args)
        elif way in ("crdsT", "TC"):
            p = p[::-1]
            fn = (lambda: F.transpose_crds()) if way == "crdsT" else (lambda: F.TC)
        elif way in ("T", "npT"):
            p = p[::-1]
            lay = flip if nc else "any"
            fn = (lambda: F.T) if way == "T" else rng.choice([lambda: np.transpose(F), lambda: F.transpose()])
        elif way == "swapcrd":
            if nd < 2:
                return None
            a, b = rng.sample(range(nd), 2)
            p[a], p[b] = b, a
            args = [rng.choice([names[i], i]) for i in (a, b)]
            fn = lambda: F.swap_crd_axes(*args)
        elif way == "swap":
            if nd < 2:
                return None
            a, b = rng.sample(range(nd), 2)
            p[a], p[b] = b, a
            off = 1 if nc and c.lay == "flat" else 0
            fn = rng.choice([lambda: F.swapaxes(a + off, b + off), lambda: np.swapaxes(F, a + off, b + off)])
        else:
            rng.shuffle(p)
            off = 1 if nc and c.lay == "flat" else 0
            axes = [i + off for i in p]
            if nc:
                ci = 0 if c.lay == "flat" else nd
                if rng.random() < 0.5:
                    axes = [ci] + axes
                    lay = "flat"
                else:
                    axes = axes + [ci]
                    lay = "interlaced"
            fn = rng.choice([lambda: F.transpose(*axes), lambda: F.transpose(axes), lambda: np.transpose(F, axes)]) if axes[0] or len(axes) > 1 else (lambda: F.transpose(*axes))
        return self.ev(c, "perm", fn, perm=[i + 1 for i in p], lay=lay, how=way)

    # ------------------------------------------------------------ makers
    def maker(self):
        rng, np, v = self.rng, self.np, self.v
        m = Made(rng, lo=0, hi=9, dtype=rng.choice(["f8", "f8", "i8", "f4"]))
        how = rng.choice(["full", "full", "zeros", "ones", "like", "like", "arrays2field", "arrays2field", "dat2field", "wraplist", "mfield",
                          "shape"])
        nd = len(m.dims)
        nodes = [0.5 * np.array(p, dtype="f8") for p in m.nodes]
        nm = m.names
        x = rng.randrange(-3, 4)
        lay = m.lay if m.nc else "any"
        big = [d + (m.center == "cell") for d in m.dims]
        rec = m.rec
        kw = dict(center=m.center, time=0, how=how, lay=lay)
        if how != "like":
            for u, a in zip(nm, rec["ax"]):
                a["n"] = u
        if how in ("full", "zeros", "ones"):
            x = dict(zeros=0, ones=1).get(how, x)
            crds = nodes if rng.random() < 0.5 else v.arrays2crds(nodes, crd_names=nm)
            a = dict(center=m.center, nr_comps=m.nc, dtype=m.dtype)
            if m.nc:
                a["layout"] = m.lay
            if isinstance(crds, list):
                a["crd_names"] = nm
            if rng.random() < 0.3:
                a["time"] = 7.0
                kw["time"] = 7
            fn = (lambda: v.full(crds, x, **a)) if how == "full" else (lambda: getattr(v, how)(crds, **a))
            self.ev(None, "fill", fn, a=rec, p=[x], **kw)
        elif how == "shape":
            rec = dict(rec, ax=self.counted(m, big, "xyzuvw"))
            a = dict(center=m.center, nr_comps=m.nc)
            if m.nc:
                a["layout"] = m.lay
            sh = rng.choice([list(big), tuple(big)])
            if any(b < 2 for b in big):
                return
            self.ev(None, "fill", lambda: v.full(sh, x, **a), a=rec, p=[x], **kw)
        elif how == "like":
            f = rng.choice(["full", "zeros", "ones", "numpy"])
            x = dict(zeros=0, ones=1).get(f, x)
            kw["time"] = m.time
            a = {}
            if f == "numpy":
                fn = rng.choice([lambda: np.full_like(m.f, x)])
                fn = lambda: v.full_like(m.f, x, name="other")
            elif f == "full":
                fn = lambda: v.full_like(m.f, x)
            else:
                fn = lambda: getattr(v, f + "_like")(m.f)
            self.ev(None, "fill", fn, a=rec, p=[x], pure=m.pure, **kw)
        elif how == "arrays2field":
            # the centering is what fits the data
            if set(m.dims) == {m.nc}:
                return
            if m.nc and self.amb(m):
                return
            self.ev(None, "same", lambda: v.arrays2field(nodes, m.arr, crd_names=nm), a=rec, pure=lambda: True, **kw)
        elif how == "wraplist":
            a = dict(_force_layout=m.lay) if m.nc and m.lay == "interlaced" else {}
            crds = rng.choice([nodes, tuple(nodes)])
            self.ev(None, "same", lambda: v.wrap_field(m.arr, v.arrays2crds(crds, crd_names=nm), center=m.center.upper(), time=2.0,
                                                      fldtype="vector" if m.nc else "scalar", **a), a=rec, **dict(kw, time=2))
        elif how == "dat2field":
            rec = dict(rec, ax=self.counted(m, m.dims, "xyzuvw", node=True))
            a = {}
            if m.nc:
                a = dict(fldtype="vector", layout=m.lay)
            else:
                a = rng.choice([{}, dict(fldtype="scalar"), dict(fldtype="Scalar")])
            if m.nc and self.amb(m):
                return
            if any(d < 2 for d in m.dims):
                return
            self.ev(None, "same", lambda: v.dat2field(m.arr, **a), a=rec, **dict(kw, center="node"))
        else:
            # numpy's grids
            rngs = []
            ax = []
            for i, b in enumerate(big):
                lo = rng.randrange(-4, 4)
                if rng.random() < 0.5:
                    st = rng.choice([1, 2])
                    rngs.append(slice(lo, lo + st * b, st))
                    p = [2 * (lo + st * j) for j in range(b)]
                else:
                    st = rng.choice([1, 2])
                    rngs.append(slice(lo, lo + st * (b - 1), complex(0, b)))
                    p = [2 * (lo + st * j) for j in range(b)]
                if m.center == "cell":
                    p = [(s + t) // 2 for s, t in zip(p[:-1], p[1:])]
                ax.append(dict(n="xyzuvw"[i], p=p))
            n = 1
            for d in m.dims:
                n *= d
            rec = dict(ax=ax, nc=0, v=[0] * n)
            g = dict(node=rng.choice([v.mfield, v.mfield_node]) if hasattr(v, "mfield_node") else v.mfield,
                     cell=getattr(v, "mfield_cell", None))[m.center]
            if g is None:
                return
            self.ev(None, "fill", lambda: g[tuple(rngs) if nd > 1 or rng.random() < 0.5 else rngs[0]], a=rec, p=[0], **dict(kw, lay="any"))

    def amb(self, m):
        """more than one reading of the shape of the data"""
        sh = list(m.arr.shape)
        node = [d + (m.center == "cell") for d in m.dims]
        cell = [d - 1 for d in node]
        fits = [sh[:-1] == node, sh[:-1] == cell, sh[1:] == node, sh[1:] == cell, sh == node, sh == cell]
        return sum(fits) > 1

    def counted(self, m, dims, nm, node=False):
        out = []
        for i, d in enumerate(dims):
            p = [2 * j for j in range(d)]
            if m.center == "cell" and not node:
                p = [(s + t) // 2 for s, t in zip(p[:-1], p[1:])]
            out.append(dict(n=nm[i], p=p))
        return out


def drive(rec, tier, rng, shard, nshards, gen):
    r = Run(rec, rng)
    n = 600 if tier == "quick" else 6000
    for k in range(n):
        rec.begin("p26/%d" % k)
        r.chain(k)
        r.chain(k)
        r.maker()
        r.maker()
