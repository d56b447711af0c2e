"""P32  vector algebra of the calculator, whichever backend"""
import falg
from falg import Made, decode
SPEC = "CalcTrace"
STATELESS = True
MC = [dict(name="c", module="CalcMC", cfg="CalcMC.cfg", tiers=("quick",)),
      dict(name="c", module="CalcMC", cfg="CalcMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 5, "thorough": 8}


def rounded(np, f, sc):
    """values of a field, scaled, to the nearest"""
    a = np.asarray(f.data, dtype="f8")
    if f.nr_comps and f.layout == "flat" and a.ndim > f.nr_sdims:
        a = np.moveaxis(a, 0, -1)
    return [int(round(x * sc)) if np.isfinite(x) else 999999 for x in a.ravel()]


class Run(object):
    def __init__(self, rec, rng):
        import numpy as np
        import viscid
        self.np, self.v, self.rec, self.rng = np, viscid, rec, rng

    def vec(self, like=None, nc=None, **kw):
        """a field (made for the specification) and the object given to the calculator, in some layout"""
        M = Made(self.rng, nc=nc, like=like, lay=kw.pop("lay", None), **kw)
        f = M.f
        if M.nc:
            how = self.rng.randrange(4)
            f = f.as_interlaced() if how == 0 else f.as_flat() if how == 1 else f
        return M, f

    def num(self, x):
        return self.rng.choice([x, float(x), self.np.float64(x), self.np.int64(x)])

    def ev(self, op, fn, A, objs, sc=1, approx=False, **kw):
        np = self.np
        before = [(o, np.array(o.data), o.name, o.layout) for o in objs]
        try:
            with np.errstate(all="ignore"):
                r = fn()
            got = decode(r, sc)
            if approx and got[0] == "fld":
                got[1]["v"] = rounded(np, r, sc)
        except Exception as e:
            got = ["exc", type(e).__name__, str(e)[:120]]
        pure = all(np.array_equal(o.data, d) and o.name == nm and o.layout == lay for o, d, nm, lay in before)
        self.rec.ev(op=op, a=A.rec, sc=sc, got=got, pure=bool(pure), center=A.center, time=A.time, lay=[o.layout for o in objs],
                    dt=A.dtype, **kw)

    def one(self):
        rng, v = self.rng, self.v
        op = rng.choice(["neg", "abs_val", "add", "diff", "mul", "scale", "axpby", "relative_diff", "abs_diff", "abs_max",
                         "abs_min", "magnitude", "dot", "cross", "project", "normalize", "project_vector", "magnitude",
                         "normalize", "project", "add", "mul", "cross", "dot"])
        be = rng.choice(["numexpr", "numpy", "any"])
        if op == "magnitude" and rng.random() < 0.3:
            be = "native"
        kw = {}
        if be != "any":
            kw = dict(preferred=rng.choice([be, [be], ["cuda", be]]), only=rng.random() < 0.5)
        cube = rng.random() < 0.3
        f = getattr(v, op)
        if op in ("neg", "abs_val", "abs_max", "abs_min"):
            A, a = self.vec(cube=cube)
            self.ev(op, lambda: f(a, **kw), A, [a], be=be)
        elif op in ("add", "diff", "mul", "abs_diff", "relative_diff"):
            ka = dict(pick=[1, 2, 4, -1, -2, -4], dtype=rng.choice(["f8", "f4"])) if op == "relative_diff" else {}
            A, a = self.vec(cube=cube, **ka)
            sc = 4 if op == "relative_diff" else 1
            if rng.random() < 0.25:
                x = rng.randrange(-5, 6)
                y = self.num(x)
                if rng.random() < 0.4 and op in ("add", "mul", "diff"):
                    self.ev("rdiff" if op == "diff" else op, lambda: f(y, a, **kw), A, [a], be=be, b=dict(k="num", x=x), ty=type(y).__name__)
                else:
                    self.ev(op, lambda: f(a, y, **kw), A, [a], sc=sc, be=be, b=dict(k="num", x=x), ty=type(y).__name__)
            else:
                if op == "relative_diff":
                    B, b = self.vec(like=A, nc=A.nc)
                else:
                    B, b = self.vec(like=A, nc=rng.choice([A.nc, A.nc, A.nc, 0 if A.nc else 3]))
                self.ev(op, lambda: f(a, b, **kw), A, [a, b], sc=sc, be=be, b=dict(k="fld", f=B.rec))
        elif op == "scale":
            A, a = self.vec(cube=cube)
            x = rng.randrange(-5, 6)
            y = self.num(x)
            self.ev("mul", lambda: f(y, a, **kw), A, [a], be=be, b=dict(k="num", x=x), via="scale")
        elif op == "axpby":
            A, a = self.vec(cube=cube)
            B, b = self.vec(like=A, nc=A.nc)
            x, y = rng.randrange(-5, 6), rng.randrange(-5, 6)
            p, q = self.num(x), self.num(y)
            self.ev(op, lambda: f(p, a, q, b, **kw), A, [a, b], be=be, x=x, y=y, b=dict(k="fld", f=B.rec))
        else:
            dims = [3, 3, 3] if cube else [rng.choice([1, 2, 3, 3, 4]) for _ in range(3 if be == "native" else rng.choice([1, 2, 3, 3]))]
            if set(dims) == {1}:
                dims[0] = 3
            A, a = self.vec(nc=3, dims=dims)
            if op in ("magnitude", "normalize"):
                self.ev(op, lambda: f(a, **kw), A, [a], sc=1000, approx=True, be=be)
                return
            B, b = self.vec(like=A, nc=3)
            if be == "numpy" and op == "dot" and b.layout != a.layout:
                b = b.as_layout(a.layout)
            approx = op.startswith("project")
            if op == "project_vector":
                kw = {}
            self.ev(op, lambda: f(a, b, **kw), A, [a, b], sc=100 if approx else 1, approx=approx, be=be, b=dict(k="fld", f=B.rec))


def drive(rec, tier, rng, shard, nshards, gen):
    r = Run(rec, rng)
    n = 500 if tier == "quick" else 6000
    for k in range(n):
        rec.begin("p32/%d" % k)
        for _ in range(5):
            r.one()
