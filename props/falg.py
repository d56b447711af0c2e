"""fields as values: shared by P24 and P26.  Positions are counted in half units, values are whole numbers."""


class Made(object):
    """a field, and what it holds"""

    def __init__(self, rng, nc=None, nd=None, like=None, lo=-6, hi=6, dtype=None, lay=None, dims=None, center=None,
                 pick=None, cube=False, refl=False):
        import numpy as np
        import viscid as v
        self.np, self.v, self.rng = np, v, rng
        self.time = rng.choice([0, 0, 3, 12]) if like is None else like.time
        if like is not None:
            self.dims, self.center, self.names, self.nodes, self.uni = like.dims, like.center, like.names, like.nodes, like.uni
        else:
            nd = nd or rng.choice([1, 2, 2, 3, 3])
            self.dims = dims or [rng.choice([1, 2, 3, 3, 4, 5]) for _ in range(nd)]
            if cube:
                self.dims = [3] * nd
            nd = len(self.dims)
            if set(self.dims) == {1}:
                self.dims[0] = 3
            self.center = center or rng.choice(["node", "node", "cell"])
            nm = rng.choice(["xyzw", "xyzw", "abcd", "rtpq", "zyxw"])
            self.names = list(nm[:nd])
            self.uni = rng.random() < 0.5
            self.nodes = []
            for d in self.dims:
                n = d + (self.center == "cell")
                x = rng.randrange(-8, 8)
                step = rng.choice([2, 4])
                p = []
                for _ in range(n):
                    p.append(x)
                    x += step if self.uni else rng.choice([2, 4, 6])
                if rng.random() < 0.1 and n > 1:
                    p = p[::-1]
                self.nodes.append(p)
        self.nc = rng.choice([0, 0, 2, 3]) if nc is None else nc
        self.lay = "scalar" if not self.nc else (lay or rng.choice(["flat", "interlaced"]))
        if self.nc and set(self.dims) == {self.nc}:
            self.lay = "flat"  # (n, n, ..) of n components reads as flat
        self.dtype = dtype or rng.choice(["f8", "f8", "f4", "i8", "i4"])
        sh = self.dims + ([self.nc] if self.nc else [])
        n = 1
        for s in sh:
            n *= s
        vals = [pick[rng.randrange(len(pick))] if pick else rng.randrange(lo, hi + 1) for _ in range(n)]
        if like is not None:
            self.units = like.units
        else:
            self.units = [rng.choice(["", "km", "R_e", "deg"]) for _ in self.names] if rng.random() < 0.3 else [""] * len(self.names)
        self.rec = dict(ax=[dict(n=label(a, u), p=self.at(i)) for i, (a, u) in enumerate(zip(self.names, self.units))], nc=self.nc,
                        v=vals)
        arr = np.array(vals, dtype=self.dtype).reshape(sh)
        if self.lay == "flat":
            arr = np.ascontiguousarray(np.moveaxis(arr, -1, 0))
        self.arr = arr
        self.refl = []
        if refl and like is None:
            self.refl = [a for a in self.names if rng.random() < 0.3]
            for i, a in enumerate(self.names):
                if a in self.refl:
                    # what is given: the other way round, of the other sign
                    arr = np.flip(arr, axis=self.layaxis(i + 1))
                    self.nodes[i] = [-x for x in self.nodes[i][::-1]]
        crds = self.crds()
        kw = {}
        if self.nc and (self.lay == "interlaced" or like is not None):
            kw["_force_layout"] = self.lay
        self.f = v.wrap_field(arr, crds, name="q", fldtype="vector" if self.nc else "scalar", center=self.center,
                              time=float(self.time), **kw)

    def at(self, i):
        p = self.nodes[i]
        return p if self.center == "node" else [(a + b) // 2 for a, b in zip(p[:-1], p[1:])]

    def crds(self):
        np, v = self.np, self.v
        arrs = [0.5 * np.array(p, dtype="f8") for p in self.nodes]
        kw = dict(reflect_axes=self.refl) if self.refl else {}
        if any(self.units):
            kw["units"] = list(self.units)
        return v.arrays2crds(arrs, crd_names=self.names, **kw)

    def layaxis(self, a):
        """number of a specification axis (from 1; len+1: components) in the array"""
        m = len(self.dims)
        if not self.nc:
            return a - 1
        if a == m + 1:
            return 0 if self.lay == "flat" else m
        return a if self.lay == "flat" else a - 1

    def pure(self):
        """still what it was?"""
        return bool(self.np.array_equal(self.f.data, self.arr) and decode(self.f, 1)[1]["v"] == self.rec["v"])


def label(name, unit):
    """an axis is known by its name and unit"""
    return "%s[%s]" % (name, unit) if unit else name


def whole(x, sc):
    import numpy as np
    x = np.asarray(x)
    if x.dtype.kind == "b":
        x = x.astype("i8")
    y = np.asarray(x, dtype="f8") * sc
    if y.size and not np.all(np.isfinite(y)):
        return [999999 if not np.isfinite(a) else int(round(a)) for a in y.ravel()]
    r = np.rint(y)
    bad = np.abs(y - r) > 1e-4 * np.maximum(1.0, np.abs(r)) * (1 if x.dtype == np.float32 else 1e-3)
    r = r.ravel()
    return [999999 if b or abs(a) > 2e9 else int(a) for a, b in zip(r, np.ravel(bad))]


def decode(r, sc):
    """what a result is"""
    import numpy as np
    import viscid
    if isinstance(r, viscid.field.Field):
        c = r.get_crds()
        ax = []
        for n, p in zip(r.crds.axes, c):
            ax.append(dict(n=label(str(n), r.crds.get_unit(n)), p=whole(p, 2)))
        dims = [len(a["p"]) for a in ax]
        a = np.asarray(r.data)
        lay = str(r.layout)
        nc = int(r.nr_comps) if isinstance(r, viscid.field.VectorField) else 0
        if [int(k) for k in r.shape] != list(a.shape):
            return ["exc", "ShapeMismatch", "%r %r" % (r.shape, a.shape)]
        if nc and lay == "flat":
            a = np.moveaxis(a, 0, -1)
        want = dims + ([nc] if nc else [])
        if list(a.shape) != want:
            return ["exc", "NotOnItsCoordinates", "%r %r" % (a.shape, want)]
        t = r.time
        return ["fld", dict(ax=ax, nc=nc, v=whole(a, sc), center=r.center, lay=lay if nc else "scalar",
                            time=-1 if t is None else int(t))]
    if np.ndim(r) == 0:
        return ["num", whole(r, sc)[0]]
    return ["arr", whole(r, sc)]


def attempt(fn, sc):
    try:
        r = fn()
        return decode(r, sc), r
    except Exception as e:
        return ["exc", type(e).__name__, str(e)[:100]], None
