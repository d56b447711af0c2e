"""P24  arithmetic, ufuncs, reductions and integrals of fields"""
import operator as O
import falg
from falg import Made, attempt
SPEC = "FieldAlgTrace"
STATELESS = True
MC = [dict(name="a", module="FieldAlgMC", cfg="FieldAlgMC.cfg", tiers=("quick",)),
      dict(name="a", module="FieldAlgMC", cfg="FieldAlgMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 5, "thorough": 8}
BIN = dict(add=O.add, sub=O.sub, mul=O.mul, truediv=O.truediv, floordiv=O.floordiv, mod=O.mod, pow=O.pow, lt=O.lt,
           le=O.le, gt=O.gt, ge=O.ge, eq=O.eq, ne=O.ne)
BIT = dict(lshift=O.lshift, rshift=O.rshift)
LOGIC = {"and": O.and_, "or": O.or_, "xor": O.xor}
REV = ["add", "sub", "mul", "truediv", "floordiv", "mod", "pow"]
SC = 64


class Run(object):
    def __init__(self, rec, rng):
        import numpy as np
        import viscid
        self.np, self.v, self.rec, self.rng = np, viscid, rec, rng

    def ev(self, m, op, fn, sc=1, lay=None, others=(), whole=False, **kw):
        np = self.np
        got, r = attempt(fn, sc)
        pure = m.pure() and all(o.pure() for o in others)
        if isinstance(r, self.v.field.Field) and r is not m.f:
            pure = pure and not any(np.shares_memory(r.data, o.f.data) for o in [m] + list(others))
        self.rec.ev(op=op, a=m.rec, sc=sc, got=got, pure=pure, center=m.center, time=m.time, whole=whole,
                    lay="any" if lay is None else lay, src=m.lay, dt=m.dtype, **kw)

    # ------------------------------------------------------------ operators
    def ranges(self, f):
        """values for both sides: (keyword arguments of the left, of the right)"""
        if f == "truediv":
            return dict(lo=-9, hi=9), dict(pick=[1, 2, 4, 8, -2, -4])
        if f in ("floordiv", "mod"):
            return dict(lo=-9, hi=9), dict(pick=[1, 2, 3, -2, -3, 5])
        if f == "pow":
            return dict(lo=-3, hi=4), dict(lo=0, hi=3)
        if f in LOGIC:
            return dict(lo=0, hi=15, dtype=self.rng.choice(["i4", "i8"])), dict(lo=0, hi=15, dtype=self.rng.choice(["i4", "i8"]))
        if f in BIT:
            return dict(lo=0, hi=15, dtype=self.rng.choice(["i4", "i8"])), dict(lo=0, hi=4, dtype="i8")
        return {}, {}

    def binary(self):
        rng, np = self.rng, self.np
        f = rng.choice(sorted(BIN) + sorted(BIN) + sorted(LOGIC) + sorted(BIT))
        fn = dict(BIN, **dict(BIT, **LOGIC))[f]
        ka, kb = self.ranges(f)
        how = rng.choice(["num", "num", "fld", "fld", "fld", "last", "arr", "reduced"])
        rev = False
        cube = rng.random() < 0.1
        if how in ("num", "last", "arr") and f in REV and rng.random() < 0.5:
            rev = True
            ka, kb = kb, ka
        A = Made(rng, cube=cube, **ka)
        ty = kb.get("dtype", rng.choice(["f8", "i8", "i4"]))
        pick = lambda: rng.choice(kb["pick"]) if "pick" in kb else rng.randrange(kb.get("lo", -6), kb.get("hi", 6) + 1)
        others = []
        lay = None if A.nc == 0 else A.lay
        if how == "num":
            x = pick()
            b = dict(k="num", x=x)
            y = x if "dtype" in kb and rng.random() < 0.5 else rng.choice([x, float(x) if "dtype" not in kb else x, np.dtype(ty).type(x)])
            if f in BIT or f in LOGIC:
                y = int(x)
        elif how == "last":
            if A.nc or len(A.dims) < 2:
                return
            x = [pick() for _ in range(A.dims[-1])]
            b = dict(k="last", x=x)
            y = np.array(x, dtype=ty)
        elif how == "arr":
            B = Made(rng, like=A, nc=A.nc, lay=A.lay if A.nc else None, **kb)
            b = dict(k="fld", f=B.rec)
            y = B.f.data
        elif how == "reduced":
            # with what a reduction that keeps its axis left over
            if A.nc or len(A.dims) < 2 or "pick" in kb or "lo" in kb:
                return
            B = Made(rng, like=A, nc=0, **kb)
            d = rng.randrange(len(A.dims))
            y = B.f.sum(axis=d)
            if not isinstance(y, self.v.field.Field):
                return
            g = falg.decode(y, 1)
            if g[0] != "fld":
                return
            if sorted(set(g[1]["v"]))[-1] > 100:
                return
            b = dict(k="fld", f=dict(ax=g[1]["ax"], nc=0, v=g[1]["v"]))
            others = [B]
            if rng.random() < 0.5:
                self.ev(A, "bin", lambda: fn(A.f, y), sc=1 if f not in ("truediv", "pow") else SC, f=f, b=b, lay=None, others=others, how=how)
            else:
                # the reduced field first
                self.ev(A, "rbin", lambda: fn(y, A.f), sc=1, f=f, b=b, lay=None, others=others, how=how + "-first")
            return
        else:
            B = Made(rng, like=A, **kb)
            b = dict(k="fld", f=B.rec)
            y = B.f
            others = [B]
            if A.nc and B.nc and A.nc != B.nc:
                return
            if A.nc and B.nc == 0:
                lay = A.lay
            else:
                lay = None
        sc = SC if f in ("truediv",) else 1
        if how == "fld" and f in ("add", "sub", "mul") and A.nc == B.nc and A.lay == B.lay and rng.random() < 0.3:
            # the same through numpy
            uf = dict(add=np.add, sub=np.subtract, mul=np.multiply)[f]
            self.ev(A, "bin", lambda: uf(A.f, B.f), sc=sc, f=f, b=b, lay=lay, others=others, how="ufunc")
            g = rng.choice(["maximum", "minimum"])
            self.ev(A, "bin", lambda: getattr(np, g)(A.f, B.f), sc=sc, f=g, b=b, lay=lay, others=others, how="ufunc")
            return
        if rev:
            self.ev(A, "rbin", lambda: fn(y, A.f), sc=sc, f=f, b=b, lay=lay, others=others, how=how, rhs=type(y).__name__)
        elif rng.random() < 0.15 and f in ("add", "sub", "mul") and A.dtype == "f8":
            # in place operators make a new field
            def inplace():
                q = A.f
                if f == "add":
                    q += y
                elif f == "sub":
                    q -= y
                else:
                    q *= y
                if q is A.f:
                    raise RuntimeError("the same object")
                return q
            self.ev(A, "bin", inplace, sc=sc, f=f, b=b, lay=lay, others=others, how="inplace-" + how)
        else:
            self.ev(A, "bin", lambda: fn(A.f, y), sc=sc, f=f, b=b, lay=lay, others=others, how=how, rhs=type(y).__name__)
            if how == "num" and f in ("floordiv", "mod"):
                k = 0 if f == "floordiv" else 1
                self.ev(A, "bin", lambda: divmod(A.f, y)[k], sc=sc, f=f, b=b, lay=lay, others=others, how="divmod")

    def unary(self):
        rng, np = self.rng, self.np
        f = rng.choice(["neg", "pos", "abs", "invert", "sign", "square", "root", "same", "zero", "isnonzero", "clip"])
        p = [0, 0]
        if f == "clip":
            p = sorted([rng.randrange(-5, 5), rng.randrange(-5, 5)])
        kw = {}
        if f == "invert":
            kw = dict(dtype=rng.choice(["i4", "i8"]))
        if f == "root":
            kw = dict(pick=[0, 1, 4, 9, 16, 25])
        A = Made(rng, **kw)
        F = A.f
        ways = dict(neg=[lambda: -F, lambda: np.negative(F)], pos=[lambda: +F], abs=[lambda: abs(F), lambda: np.abs(F), lambda: np.absolute(F)],
                    invert=[lambda: ~F, lambda: np.invert(F)], sign=[lambda: np.sign(F)], square=[lambda: np.square(F)],
                    root=[lambda: np.sqrt(F)], zero=[lambda: F.imag, lambda: np.imag(F) if False else F.imag],
                    same=[lambda: F.round(), lambda: np.round_(F, 1), lambda: F.conj(), lambda: np.conj(F), lambda: F.conjugate(),
                          lambda: F.real, lambda: F.astype("f8"), lambda: F.astype("f4"), lambda: F.astype("i8"), lambda: F.copy() if hasattr(F, "copy") else +F],
                    isnonzero=[lambda: np.logical_not(np.logical_not(F)), lambda: F.astype("bool")],
                    clip=[lambda: F.clip(p[0], p[1]), lambda: np.clip(F, p[0], p[1]), lambda: F.clip(min=p[0], max=p[1])])[f]
        k = rng.randrange(len(ways))
        np_, ow = self.np, self.np.shares_memory
        got, r = attempt(ways[k], 1)
        self.rec.ev(op="un", f=f, p=p, a=A.rec, sc=1, got=got, pure=A.pure(), center=A.center, time=A.time, whole=False,
                    lay="any" if not A.nc else A.lay, src=A.lay, how=k)

    # ------------------------------------------------------------ reductions
    def reduction(self):
        rng, np = self.rng, self.np
        f = rng.choice(["sum", "sum", "mean", "mean", "prod", "max", "max", "min", "any", "all", "argmax", "argmin", "ptp", "var"])
        kw = dict(pick=[0, 0, 0, 1]) if f in ("any", "all") else dict(lo=-2, hi=2) if f == "prod" else {}
        A = Made(rng, **kw)
        F = A.f
        m = len(A.dims)
        tot = m + (1 if A.nc else 0)
        axes = list(range(1, tot + 1))
        how = rng.choice(["all", "one", "one", "one", "tuple"])
        if how == "tuple" and f in ("argmax", "argmin", "ptp"):
            how = "one"
        n = 1
        args = {}
        if how == "all":
            S = list(axes)
            if rng.random() < 0.5:
                args = {"axis": None}
            if f in ("argmax", "argmin") and A.lay == "flat":
                return
        elif how == "one":
            S = [rng.choice(axes)]
            a = A.layaxis(S[0])
            args = {"axis": a - tot if rng.random() < 0.4 else a}
        else:
            S = sorted(rng.sample(axes, min(len(axes), rng.choice([1, 2, 2]))))
            args = {"axis": tuple(A.layaxis(s) - (tot if rng.random() < 0.3 else 0) for s in S)}
        if f == "prod" and len(S) > 1:
            return
        keep = None
        if how != "all" and f not in ("ptp", "argmax", "argmin") and rng.random() < 0.5:
            keep = rng.random() < 0.5
            args["keepdims"] = keep
        # a scalar keeps the axis unless told otherwise; a vector does not
        k = keep if keep is not None else (not A.nc)
        if how == "all":
            k = False
        for s in S:
            n *= (A.dims + [A.nc])[s - 1]
        name = {"var": "std"}.get(f, f)
        if rng.random() < 0.35:
            call = lambda: getattr(np, name)(F, **args)
        else:
            call = lambda: getattr(F, name)(**args)
        if f == "var":
            c0 = call
            call = lambda: np.square(c0())
        if len(S) == m and m + 1 not in S and A.nc and not k:
            # components are left over, with no place: any array of them
            pass
        self.ev(A, "red", call, sc=n if f == "mean" else n * n if f == "var" else 1, f=f, axes=S, keep=bool(k), lay="any",
                args=str(args))

    def running(self):
        rng, np = self.rng, self.np
        f = rng.choice(["cumsum", "cumprod", "argsort", "trapz", "trapz", "cumtrapz"])
        A = Made(rng, **(dict(lo=-2, hi=2) if f == "cumprod" else {}))
        F = A.f
        d = rng.randrange(1, len(A.dims) + 1)
        a = A.layaxis(d)
        tot = len(A.dims) + (1 if A.nc else 0)
        if f in ("cumsum", "cumprod", "argsort"):
            ax = a - tot if rng.random() < 0.4 else a
            how = rng.choice(["method", "np"])
            if f == "argsort":
                fn = lambda: F.argsort(axis=ax, kind="mergesort") if how == "method" else np.argsort(F, axis=ax, kind="stable")
            else:
                fn = lambda: getattr(F, f)(axis=ax) if how == "method" else getattr(np, f)(F, axis=ax)
            self.ev(A, f, fn, axis=d, lay=A.lay if A.nc else "any", ax=ax)
        else:
            if A.nodes[d - 1][0] > A.nodes[d - 1][-1]:
                pass
            ax = rng.choice([A.names[d - 1], d - 1, d - 1 - len(A.dims)])
            if f == "cumtrapz" and A.dims[d - 1] < 2:
                return
            self.ev(A, f, lambda: getattr(F, f)(axis=ax), sc=4, axis=d, lay="any", ax=str(ax))


def drive(rec, tier, rng, shard, nshards, gen):
    r = Run(rec, rng)
    n = 600 if tier == "quick" else 5000
    for k in range(n):
        rec.begin("p24/%d" % k)
        for _ in range(4):
            r.binary()
        r.unary()
        r.reduction()
        r.reduction()
        r.running()
