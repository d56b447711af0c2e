"""P31  derivatives, averages between centerings, and integrals along lines"""
import falg
from falg import Made, decode
from p32 import rounded
SPEC = "CalcTrace"
STATELESS = True
MC = [dict(name="c", module="CalcMC", cfg="CalcMC.cfg", tiers=("quick",)),
      dict(name="c", module="CalcMC", cfg="CalcMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 5, "thorough": 8}
L = 27720
QUADS = [(1, 2, 2, 3), (2, 3, 6, 7), (2, 1, 2, 3), (0, 3, 4, 5), (2, 0, 0, 2), (4, 4, 7, 9), (-2, 2, 1, 3), (0, -4, 3, 5)]


class Run(object):
    def __init__(self, rec, rng):
        import numpy as np
        import viscid
        self.np, self.v, self.rec, self.rng = np, viscid, rec, rng

    def made(self, nc, like=None, dims=None, **kw):
        M = Made(self.rng, nc=nc, like=like, dims=dims, dtype=kw.pop("dtype", self.rng.choice(["f8", "f8", "i8"])), **kw)
        if like is None:
            M.names = list("xyz")
        return M, M.f

    def dims(self, lo=1, hi=5, cube=0.3):
        rng = self.rng
        if rng.random() < cube:
            return [3, 3, 3]
        d = [rng.randrange(lo, hi + 1) for _ in range(3)]
        if set(d) == {1}:
            d[rng.randrange(3)] = 3
        return d

    def lay(self, M, f):
        if not M.nc:
            return f
        how = self.rng.randrange(4)
        return f.as_interlaced() if how == 0 else f.as_flat() if how == 1 else f

    def out(self, op, A, objs, fn, sc=1, dec=None, **kw):
        np = self.np
        before = [(o, np.array(o.data), o.name, o.layout) for o in objs]
        try:
            with np.errstate(all="ignore"):
                r = fn()
            got = ["ok", dec(r)] if dec else decode(r, sc)
        except Exception as e:
            got = ["exc", type(e).__name__, str(e)[:120]]
        pure = all(np.array_equal(o.data, d) and o.name == nm and o.layout == lay for o, d, nm, lay in before)
        self.rec.ev(op=op, a=A.rec if A else [], sc=sc, got=got, pure=bool(pure), center=A.center if A else "", time=A.time if A else 0,
                    lay=[o.layout for o in objs], **kw)

    def field(self, nc, dims, **kw):
        """named x, y, z"""
        for _ in range(100):
            M = Made(self.rng, nc=nc, dims=dims, dtype=self.rng.choice(["f8", "f8", "i8"]), **kw)
            if M.names == ["x", "y", "z"]:
                return M, self.lay(M, M.f)

    def deriv(self):
        rng, v = self.rng, self.v
        op = rng.choice(["grad", "grad", "div", "curl", "conv", "conv", "jac"])
        bnd = rng.random() < 0.6 and op != "jac"
        A, a = self.field(0 if op == "grad" else 3, self.dims() if bnd else rng.choice([self.dims(lo=4, cube=0), [3, 4, 3], [5, 3, 3], [5, 5, 5]]))
        kw = {}
        if not bnd or rng.random() < 0.7:
            kw["bnd"] = bnd
        be = rng.choice(["numexpr", "numpy", "any"])
        if be != "any" and op in ("grad", "div", "curl"):
            kw["preferred"] = be
            kw["only"] = True
        if op == "jac":
            ix = [rng.randrange(1, d - 1) for d in A.dims]
            self.out(op, A, [a], lambda: v.jacobian_at_ind(a.astype("f8"), *ix), sc=L, ix=ix, dec=lambda r: [falg.whole(q, L) for q in r])
        elif op == "conv":
            if rng.random() < 0.3:
                self.out(op, A, [a], lambda: v.convective_deriv(a, **kw), sc=L, bnd=bnd, b=dict(k="none"))
            else:
                B = Made(rng, like=A, nc=rng.choice([0, 3, 3]), dtype="f8")
                b = self.lay(B, B.f)
                self.out(op, A, [a, b], lambda: v.convective_deriv(a, b, **kw), sc=L, bnd=bnd, b=dict(k="fld", f=B.rec))
        else:
            self.out(op, A, [a], lambda: getattr(v, op)(a, **kw), sc=L, bnd=bnd, be=be)

    def extend(self):
        rng, v, np = self.rng, self.v, self.np
        A = Made(rng, cube=rng.random() < 0.2, dtype=rng.choice(["f8", "i8", "f4"]))
        a = self.lay(A, A.f)
        m = len(A.dims)
        axes = sorted(rng.sample(range(m), rng.randrange(1, m + 1)))
        nl, nh = rng.choice([(1, 1), (1, 1), (0, 1), (2, 0), (1, 2), (2, 2)])
        order, corder = rng.choice([0, 1]), rng.choice([0, 1])
        kw = dict(nl=nl, nh=nh, order=order, crd_order=corder)
        how = rng.randrange(4)
        if how == 0 and len(axes) == m:
            pass
        elif how == 1:
            kw["axes"] = [A.names[i] for i in axes]
        elif how == 2:
            kw["axes"] = "".join(A.names[i] for i in axes)
        else:
            kw["axes"] = list(axes)
        self.out("extend", A, [a], lambda: v.extend_boundaries(a, **kw), axes=[i + 1 for i in axes], nl=nl, nh=nh, order=order, corder=corder)

    def stagger(self):
        """face and edge centered fields: a value per cell and component, at its lower side"""
        rng, v, np = self.rng, self.v, self.np
        op = rng.choice(["fc2cc", "ec2cc", "div_fc", "div_fc"])
        dims = self.dims(lo=2) if rng.random() < 0.7 else self.dims()
        if max(dims) < 3:
            dims[rng.randrange(3)] = 4
        for _ in range(100):
            A = Made(rng, nc=3, dims=dims, center="cell", dtype="f8", lay="flat")
            if A.names == ["x", "y", "z"]:
                break
        f = v.wrap_field(A.arr.copy(), A.crds(), name="b", fldtype="vector", center="face" if op != "ec2cc" else "edge", time=float(A.time))
        sc = {"fc2cc": 2, "ec2cc": 4}.get(op, L)
        fn = getattr(v, op)
        kw = dict(bnd=False, force_numpy=rng.random() < 0.5)
        if op == "div_fc" and rng.random() < 0.4:
            fn, kw = v.div, dict(bnd=False)
        self.out(op, A, [f], lambda: fn(f, **kw), sc=sc, nodes=A.nodes)

    # ------------------------------------------------------- linear fields
    def linear(self, J, J0):
        """a cell centered vector (scalar) field that is linear: component c is J0[c] + J[c] . r"""
        rng, np, v = self.rng, self.np, self.v
        n = [rng.randrange(4, 7) for _ in range(3)]
        xs = []
        for d in n:
            x, p = rng.randrange(-8, 8) // 2 * 2, []
            uni = rng.random() < 0.5
            for _ in range(d + 1):
                p.append(x)
                x += 4 if uni else rng.choice([2, 4, 6])
            xs.append(p)
        c = v.arrays2crds([0.5 * np.array(p, dtype="f8") for p in xs])
        X, Y, Z = c.get_crds_cc(shaped=True)
        comps = [j0 + j[0] * X + j[1] * Y + j[2] * Z for j, j0 in zip(J, J0)]
        if len(comps) == 1:
            f = v.wrap_field(comps[0] + 0 * (X + Y + Z), c, name="s", center="cell")
        else:
            f = v.wrap_field(np.array([q + 0 * (X + Y + Z) for q in comps]), c, name="v", fldtype="vector", center="cell")
            f = f.as_interlaced() if rng.random() < 0.5 else f
        return xs, f

    def point(self, xs, pad=0):
        """a place (in half units) between the first and last cell centers, pad cells away from them"""
        rng = self.rng
        lo = [(p[pad] + p[pad + 1]) // 2 for p in xs]
        hi = [(p[-1 - pad] + p[-2 - pad]) // 2 for p in xs]
        return [rng.randrange(a, b + 1) for a, b in zip(lo, hi)]

    def atpoint(self):
        rng, v, np = self.rng, self.v, self.np
        J = [[rng.randrange(-4, 5) for _ in range(3)] for _ in range(3)]
        xs, f = self.linear(J, [rng.randrange(-5, 6) for _ in range(3)])
        p = [0.5 * x for x in self.point(xs, 1)]
        fn = rng.choice(["jac", "div", "curl", "curl"])
        kw = {}
        ccs = [[0.25 * (a + b) for a, b in zip(q, q[1:])] for q in xs]
        wide = [max(b - a for a, b in zip(q, q[1:])) for q in ccs]
        if rng.random() < 0.5 or any(x - w < q[0] or x + w > q[-1] for x, w, q in zip(p, wide, ccs)):
            kw = dict(dx=rng.choice([0.5, 0.25]), dy=rng.choice([0.5, 0.25, 0.125]), dz=rng.choice([0.5, 0.25]))
        call = dict(jac=v.jacobian_at_point, div=v.div_at_point, curl=v.curl_at_point)[fn]
        dec = (lambda r: [falg.whole(q, 8) for q in r]) if fn == "jac" else (lambda r: falg.whole(r, 8)) if fn == "curl" else (lambda r: falg.whole(r, 8)[0])
        self.out("lin", None, [f], lambda: call(f, *p, **kw), sc=8, dec=dec, f=fn, J=J)

    def line(self, xs, n):
        rng = self.rng
        while True:
            p = self.point(xs)
            ln = [p]
            for _ in range(n - 1):
                for _ in range(20):
                    q = list(ln[-1])
                    if rng.random() < 0.7:
                        i = rng.randrange(3)
                        q[i] = self.point(xs)[i]
                    else:
                        a, b, c, _ = rng.choice(QUADS)
                        s = rng.choice([1, -1])
                        q = [q[0] + s * a, q[1] + s * b, q[2] + s * c]
                    ok = q != ln[-1] and all((p[0] + p[1]) // 2 <= x <= (p[-1] + p[-2]) // 2 for x, p in zip(q, xs))
                    if ok:
                        ln.append(q)
                        break
                else:
                    break
            if len(ln) >= 2:
                return ln

    def integral(self):
        rng, v, np = self.rng, self.v, self.np
        op = rng.choice(["along", "work", "mags"])
        k0, k = rng.randrange(-5, 6), [rng.randrange(-3, 4) for _ in range(3)]
        kw = {}
        m = 0
        if op == "along":
            xs, f = self.linear([k], [k0])
        elif op == "work":
            K = [[rng.randrange(-3, 4) for _ in range(3)] for _ in range(3)]
            K0 = [rng.randrange(-5, 6) for _ in range(3)]
            xs, f = self.linear(K, K0)
            k, k0 = K, K0
            if rng.random() < 0.5:
                kw = dict(reduction="dot")
        else:
            a, b, c, m = rng.choice(QUADS)
            k0, k = 100, [rng.randrange(-1, 2) for _ in range(3)]
            xs, f = self.linear([[q * x for x in k] for q in (a, b, c)], [q * k0 for q in (a, b, c)])
            kw = dict(reduction=rng.choice(["mag", "magnitude", "norm", " MAG"]))
        lines = [self.line(xs, rng.randrange(2, 6)) for _ in range(rng.randrange(1, 4))]
        arrs = [0.5 * np.array(ln, dtype="f8").T for ln in lines]
        kept = [q.copy() for q in arrs]
        one = len(arrs) == 1 and rng.random() < 0.5
        fn = (lambda: [v.integrate_along_line(arrs[0], f, **kw)]) if one else (lambda: v.integrate_along_lines(arrs, f, **kw))
        self.out(op, None, [f], fn, sc=8, dec=lambda r: falg.whole(r, 8), lines=lines, k0=k0, k=k, m=m)
        assert all(np.array_equal(p, q) for p, q in zip(arrs, kept))

    def resample(self):
        rng, v, np = self.rng, self.v, self.np
        lines = [[[rng.randrange(-9, 10) for _ in range(3)] for _ in range(rng.randrange(2, 6))] for _ in range(rng.randrange(1, 4))]
        factor = rng.choice([0.5, 1, 1.5, 2, 2.0, 3, 0.25, 2.5])
        ns = [-(-int(round(factor * 4 * (len(ln) - 1))) // 4) + 1 for ln in lines]
        arrs = [np.array(ln, dtype="f8").T for ln in lines]
        given = list(arrs)
        want = [q.copy() for q in arrs]

        def dec(r):
            ok = len(given) == len(arrs) and all(x is y for x, y in zip(given, arrs)) and all(np.array_equal(x, y) for x, y in zip(want, arrs))
            if not ok:
                raise RuntimeError("input changed")
            return [[falg.whole(p, n - 1) for p in q.T] for q, n in zip(r, ns)]
        self.out("resample", None, [], lambda: v.resample_lines(arrs, factor=factor), dec=dec, lines=lines, n=ns, factor=str(factor))


def drive(rec, tier, rng, shard, nshards, gen):
    r = Run(rec, rng)
    n = 260 if tier == "quick" else 3000
    for k in range(n):
        rec.begin("p31/%d" % k)
        for _ in range(3):
            r.deriv()
        r.extend()
        r.stagger()
        r.atpoint()
        r.integral()
        r.resample()
