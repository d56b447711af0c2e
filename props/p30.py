"""P30  the value of a field between its places"""
import falg
from falg import Made, decode
SPEC = "InterpTrace"
STATELESS = True
MC = [dict(name="i", module="InterpMC", cfg="InterpMC.cfg", tiers=("quick",)),
      dict(name="i", module="InterpMC", cfg="InterpMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 4, "thorough": 8}
U = 4


def milli(np, x):
    y = np.asarray(x, dtype="f8") * 1000
    return [int(round(float(a))) if np.isfinite(a) and abs(a) < 1e6 else 999999999 for a in y.ravel()]


class Run(object):
    def __init__(self, rec, rng):
        import numpy as np
        import viscid
        self.np, self.v, self.rec, self.rng = np, viscid, rec, rng

    def made(self, nd=3, **kw):
        rng = self.rng
        M = Made(rng, nd=nd, nc=kw.pop("nc", rng.choice([0, 0, 0, 3, 3, 2, 4, 5])), **kw)
        M.names = sorted(rng.sample("xyz", nd))
        M.units = [""] * nd
        for i, p in enumerate(M.nodes):
            if p[0] > p[-1]:
                M.nodes[i] = p[::-1]
        M.rec["ax"] = [dict(n=a, p=M.at(i)) for i, a in enumerate(M.names)]
        kw = dict(_force_layout=M.lay) if M.nc else {}
        M.f = self.v.wrap_field(M.arr, M.crds(), name="q", fldtype="vector" if M.nc else "scalar", center=M.center, **kw)
        if M.nc and rng.random() < 0.3:
            M.f = M.f.as_interlaced() if rng.random() < 0.5 else M.f.as_flat()
        return M, M.f

    def out(self, op, M, fn, dec, **kw):
        np = self.np
        axes = lambda: [list(x) for x in M.f.get_crds_nc()]
        before = [np.array(M.f.data), M.f.layout, axes()]
        try:
            got = dec(fn())
        except Exception as e:
            got = ["exc", type(e).__name__, str(e)[:120]]
        pure = bool(np.array_equal(before[0], M.f.data) and before[1] == M.f.layout
                    and before[2] == axes())
        self.rec.ev(op=op, a=M.rec, got=got, pure=pure, **kw)

    def coord(self, p):
        """of a point, in eighths"""
        rng = self.rng
        k = rng.randrange(10)
        if k < 2:
            return U * rng.choice(p)
        if k < 3:
            return rng.choice([U * p[0] - rng.randrange(1, 20), U * p[-1] + rng.randrange(1, 20)])
        if k < 4 and len(p) > 1:
            i = rng.randrange(len(p) - 1)
            return U * (p[i] + p[i + 1]) // 2
        return rng.randrange(U * p[0], U * p[-1] + 1)

    def interp(self):
        rng, v, np = self.rng, self.v, self.np
        M, f = self.made(rng.choice([1, 2, 3, 3, 3, 3]))
        n = rng.randrange(1, 8)
        P = [[0] * n for _ in range(3)]
        for i, a in enumerate("xyz"):
            for k in range(n):
                P[i][k] = self.coord(M.rec["ax"][M.names.index(a)]["p"]) if a in M.names else rng.randrange(-9, 10)
        pts = [[P["xyz".index(a)][k] for a in M.names] for k in range(n)]
        arr = 0.125 * np.array(P, dtype="f8")
        form = rng.randrange(5)
        if form == 0:
            seeds = arr
        elif form == 1 and n != 3:
            seeds = arr.T
        elif form == 2 and n != 3:
            seeds = [list(p) for p in arr.T]
        elif form == 3:
            seeds = [list(p) for p in arr]
        else:
            seeds = v.Point(arr, cache=rng.random() < 0.5)
        kind = rng.choice(["linear", "linear", "nearest"])
        wrap = rng.random() < 0.5
        how = rng.randrange(3)
        if how == 0:
            fn = lambda: v.interp(f, seeds, kind=rng.choice(["linear", "trilinear", "trilin", " Linear"]) if kind == "linear" else "nearest", wrap=wrap)
        elif how == 1:
            fn = lambda: v.interp(f, seeds, method=kind, wrap=wrap)
        else:
            fn = lambda: (v.interp_trilin if kind == "linear" else v.interp_nearest)(f, seeds, wrap=wrap)

        def dec(r):
            if wrap:
                assert isinstance(r, v.field.Field)
            a = np.asarray(r.data if wrap else r)
            if wrap and M.nc:
                assert r.layout == "interlaced" and r.nr_comps == M.nc, "%s %s" % (r.layout, r.nr_comps)
            if list(a.shape) != ([n, M.nc] if M.nc else [n]):
                raise RuntimeError("shape %r" % (a.shape,))
            return ["ok", milli(np, a)]
        self.out("interp", M, fn, dec, kind=kind, pts=pts)

    def on(self):
        """on the places of another field"""
        rng, v, np = self.rng, self.v, self.np
        M, f = self.made(rng.choice([2, 3, 3, 3]))
        G, g = self.made(3, nc=0)
        for i, p in enumerate(G.nodes):  # near the field
            if G.names[i] in M.names and rng.random() < 0.8:
                q = M.nodes[M.names.index(G.names[i])]
                sh = q[0] - p[0] + 2 * rng.randrange(-1, 2)
                G.nodes[i] = [x + sh for x in p]
        g = v.wrap_field(G.arr, G.crds(), name="g", center=G.center)
        kind = rng.choice(["linear", "linear", "nearest"])
        ax = [dict(n=a, p=G.at(i)) for i, a in enumerate("xyz")]
        ks = [i for i, a in enumerate("xyz") if a in M.names]
        sel = [ax[i] for i in ks]
        seeds = g

        def dec(r):
            d = decode(r, 1)
            if d[0] != "fld":
                return d
            if d[1]["ax"] != ax or d[1]["center"] != G.center:
                raise RuntimeError("not on its coordinates %r" % (d[1]["ax"],))
            a = np.asarray(r.data)
            # the axes the field does not have do not matter
            for i in (2, 1, 0):
                if i not in ks:
                    if not np.array_equal(a, np.repeat(np.take(a, [0], axis=i), a.shape[i], axis=i)):
                        raise RuntimeError("varies")
                    a = np.take(a, 0, axis=i)
            return ["fld", dict(nc=d[1]["nc"], ax=sel, v=milli(np, a))]
        self.out("on", M, lambda: v.interp(f, seeds, kind=kind), dec, kind=kind, g=sel)

    def slice(self):
        rng, v, np = self.rng, self.v, self.np
        M, f = self.made(3, dims=[rng.randrange(2, 5) for _ in range(3)])
        m = rng.randrange(1, 8)
        pins, sel = [], []
        named = rng.random() < 0.5
        for i, a in enumerate(M.names):
            if m >> i & 1:
                p = M.rec["ax"][i]["p"]
                t = rng.choice([U * rng.choice(p), rng.randrange(U * p[0], U * p[-1] + 1)])
                pins.append([t])
                x = "%gj" % (0.125 * t)
                sel.append("%s=%s" % (a, x) if named else x)
            else:
                pins.append([])
                if not named:
                    sel.append(":")

        def dec(r):
            d = decode(r, 1)
            if d[0] == "fld":
                a = np.asarray(r.data)
                if d[1]["nc"] and d[1]["lay"] == "flat":
                    a = np.moveaxis(a, 0, -1)
                return ["fld", dict(nc=d[1]["nc"], ax=d[1]["ax"], v=milli(np, a))]
            return ["num", milli(np, r)[0]] if d[0] == "num" else ["fld", dict(nc=M.nc, ax=[], v=milli(np, r))]
        self.out("slice", M, lambda: f.interpolated_slice(", ".join(sel)), dec, pins=pins, sel=", ".join(sel))


def drive(rec, tier, rng, shard, nshards, gen):
    r = Run(rec, rng)
    n = 200 if tier == "quick" else 3000
    for k in range(n):
        rec.begin("p30/%d" % k)
        for _ in range(4):
            r.interp()
        r.on()
        r.slice()
        r.slice()
