"""P15  what is saved is what loads"""
import os
import random
import shutil
import tempfile
from falg import decode
SPEC = "StoreTrace"
MC = [dict(name="t", module="StoreMC", cfg="StoreMC.cfg", gen=True)]
SHARDS = {"quick": 4, "thorough": 8}
NAMES = ["p", "q", "rho", "vx", "B", "e_cc", "a b", "T*", "n[1]", "|B|", "a&b", "u<v", "x'y", "say \"hi\"", "k:1", "b.c", "7",
         "x+y", u"\u03c1"]


class Rig(object):
    def __init__(self, rec, rng, name):
        import numpy as np
        import viscid
        self.np, self.v, self.rec, self.rng = np, viscid, rec, rng
        viscid.unload_all_files()
        self.dir = tempfile.mkdtemp(prefix="store")
        self.open = {}
        rec.begin(name)

    def done(self):
        self.v.unload_all_files()
        shutil.rmtree(self.dir, ignore_errors=True)

    def fn(self, p):
        return os.path.join(self.dir, p)

    def fmt(self, p):
        return "h5" if p.endswith(".h5") else "npz"

    def load(self, p, how=None):
        v = self.v
        f = self.fn(p)
        if p.endswith(".h5"):
            f = f[:-3] + ".xdmf"
        if self.rng.random() < 0.5:
            v.unload_all_files()
        return v.load_file(f, force_reload=True)

    # ----------------------------------------------------------------- events
    def attempt(self, fn):
        try:
            fn()
            return ["ok"]
        except Exception as e:
            return ["exc", type(e).__name__, str(e)[:120]]

    def describe(self, name, f):
        d = decode(f, 1)
        assert d[0] == "fld", d
        return dict(n=name, A=dict(ax=d[1]["ax"], nc=d[1]["nc"], v=d[1]["v"]), center=f.center, dt=str(f.dtype))

    def save(self, p, items, how=None):
        """items: (name, field) pairs"""
        rng, v = self.rng, self.v
        flds = [self.describe(n, f) for n, f in items]
        own = all(n == f.name for n, f in items)
        uniq = len(set(n for n, _ in items)) == len(items)
        ways = ["pairs", "pairs", "dict", "grid"] if uniq else ["pairs"]
        if own:
            ways += ["list", "list"]
        if len(items) == 1:
            ways += ["one", "named"] if own else ["named"]
        if not items:
            ways = ["list"]
        how = how or rng.choice(ways)
        kw = {}
        if self.fmt(p) == "h5" and rng.random() < 0.25:
            kw = rng.choice([dict(complevel=4), dict(compression="lzf", compression_opts=None), dict(compression_opts=9)])
        path = self.fn(p)

        def grid():
            g = v.grid.Grid()
            for n, f in items:
                g._fields[[n]] = f
            return g
        from viscid.compat import OrderedDict
        fn = dict(pairs=lambda: v.save_fields(path, [(n, f) for n, f in items], **kw),
                  dict=lambda: v.save_fields(path, OrderedDict(items), **kw),
                  list=lambda: v.save_fields(path, [f for _, f in items], **kw),
                  one=lambda: v.save_field(path, items[0][1], **kw),
                  named=lambda: v.save_field(path, items[0][1], name=items[0][0], **kw),
                  grid=lambda: v.save_grid(path, grid(), **kw))[how]
        got = self.attempt(fn)
        after = [self.describe(n, f) for n, f in items]
        t = items[0][1].time if items else 0
        self.rec.ev(op="save", p=p, fmt=self.fmt(p), flds=flds, time=int(t), got=got, how=how, kw=repr(kw), pure=after == flds)

    def conv(self, p, q):
        v, rng = self.v, self.rng

        def fn():
            f = self.load(p)
            how = rng.randrange(3)
            if how == 0:
                v.save_grid(self.fn(q), f.get_grid())
            elif how == 1:
                v.save_fields(self.fn(q), f.get_grid().field_dict())
            else:
                g = f.get_grid()
                v.save_fields(self.fn(q), [g.get_field(n) for n in g.field_names])
        self.rec.ev(op="conv", p=p, q=q, fmt=self.fmt(q), got=self.attempt(fn))

    def names(self, p):
        try:
            ns = sorted(str(n) for n in self.load(p).get_grid().field_names)
            got = ["ok"]
        except Exception as e:
            ns, got = [], ["exc", type(e).__name__, str(e)[:100]]
        self.rec.ev(op="names", p=p, got=got, ns=ns)
        return ns

    def get(self, p, n, grid=None, part=False):
        rng, np = self.rng, self.np
        lo, hi, stp = [], [], []
        dt = ""
        try:
            g = grid or self.load(p).get_grid()
            slc = Ellipsis
            if part:
                f0 = g.get_field(n)
                sh, cell = [int(x) for x in f0.sshape], f0.center == "cell"
                key = []
                for d in sh:
                    a = rng.randrange(0, d)
                    b = rng.randrange(a + 1, d + 1)
                    s = 1 if cell else rng.choice([1, 1, 2])
                    if rng.random() < 0.3:
                        a, b, s = 0, d, 1
                    lo.append(a)
                    hi.append(b)
                    stp.append(s)
                    key.append(slice(a, b, s))
                slc = tuple(key)
            how = rng.randrange(3)
            if how == 0 or not part:
                r = g.get_field(n, slc=slc)
            elif how == 1:
                r = g.get_field(n)[slc]
            else:
                r = g.get_field(n).slice_and_keep(slc)
            dt = str(r.dtype) if isinstance(r, self.v.field.Field) else ""
            got = decode(r, 1)
        except Exception as e:
            got = ["exc", type(e).__name__, str(e)[:100]]
        self.rec.ev(op="get", p=p, n=n, got=got, part=part, lo=lo, hi=hi, stp=stp, dt=dt)

    def look(self, p, items):
        """everything in one go"""
        self.names(p)
        try:
            g = self.load(p).get_grid()
        except Exception:
            return
        for n in items:
            self.get(p, n, grid=g if self.rng.random() < 0.7 else None)

    # ----------------------------------------------------------------- fields
    def mesh(self, nd, names=None, dims=None, step=2):
        rng = self.rng
        dims = dims or [rng.choice([1, 2, 3, 3, 4, 4, 5]) for _ in range(nd)]
        if set(dims) == {1}:
            dims[0] = 3
        nodes = []
        uni = rng.random() < 0.5
        for d in dims:
            x = 2 * rng.randrange(-6, 6)
            p = []
            st = rng.choice([2, 4])
            for _ in range(d):
                p.append(x)
                x += st if uni else rng.choice([2, 4, 6])
            nodes.append(p)
        return dict(names=list(names or "xyz"[:nd]), nodes=nodes, dims=dims)

    def field(self, m, name, time, center=None, nc=None):
        rng, np, v = self.rng, self.np, self.v
        center = center or rng.choice(["node", "node", "cell"])
        if min(m["dims"]) < 2:
            center = "node"
        dims = [d - (center == "cell") for d in m["dims"]]
        if set(dims) == {1}:
            center, dims = "node", m["dims"]
        nc = rng.choice([0, 0, 2, 3, 3]) if nc is None else nc
        sh = dims + ([nc] if nc else [])
        dt = rng.choice(["f8", "f8", "f4", "i4", "i8"])
        vals = np.array([rng.randrange(-99, 100) for _ in range(int(np.prod(sh)))], dtype=dt).reshape(sh)
        if nc:
            lay = rng.choice(["flat", "interlaced"])
            if lay == "flat":
                vals = np.ascontiguousarray(np.moveaxis(vals, -1, 0))
            kw = dict(_force_layout=lay)
        else:
            kw = {}
        crds = v.arrays2crds([0.5 * np.array(p, dtype="f8") for p in m["nodes"]], crd_names=m["names"])
        f = v.wrap_field(vals, crds, name=name, center=center, time=float(time), fldtype="vector" if nc else "scalar", **kw)
        x = rng.random()
        if x < 0.1:
            f = f.as_layout(rng.choice(["flat", "interlaced"]))
        elif x < 0.2:
            f = f.wrap(f.data * 1)
            f.name = name
        return f


def drive(rec, tier, rng, shard, nshards, gen):
    import vharness
    q = tier == "quick"
    for i, seq in enumerate(vharness.tours(gen["t"], random.Random(rng.random()), max_events=120 if q else 2500, maxlen=12)):
        r = Rig(rec, rng, "gen/%d" % i)
        m1 = r.mesh(1, dims=[2])
        m2 = r.mesh(2, names="ab", dims=[3, 2])
        for lab in seq:
            if lab["op"] == "save":
                items = [[("p", r.field(m1, "p", 4, "node", 0))],
                         [("p", r.field(m1, "p", 0, "node", 0)), ("q", r.field(m1, "q", 0, "node", 0))],
                         [("q", r.field(m2, "q", 9, "cell", 2)), ("q", r.field(m2, "q", 9, "node", 2))], []][lab["k"] - 1]
                r.save(lab["p"], items)
                r.look(lab["p"], ["p", "q"])
            else:
                r.conv(lab["p"], lab["q"])
                r.look(lab["q"], ["p", "q"])
        r.done()
    for i in range(60 if q else 1500):
        walk(rec, rng, "walk/%d" % i)


def walk(rec, rng, name):
    r = Rig(rec, rng, name)
    paths = ["a.npz", "b.h5", "c.h5", "d.npz"]
    pool = list(NAMES)
    rng.shuffle(pool)
    pool = pool[:4]
    has = {}
    for _ in range(rng.choice([3, 5, 7])):
        p = rng.choice(paths)
        x = rng.random()
        if x < 0.6 or not has:
            nd = rng.choice([1, 2, 3, 3, 3])
            m = r.mesh(nd, names=rng.choice(["xyz", "xyz", "zyx", "abc"])[:nd])
            t = rng.choice([0, 3, 12])
            n = rng.choice([1, 2, 3])
            items = []
            for _ in range(n):
                nm = rng.choice(pool)
                items.append((nm, r.field(m, nm if rng.random() < 0.7 else "other", t)))
            if rng.random() < 0.04:
                items = []
            r.save(p, items)
            if items:
                has[p] = sorted(set(k for k, _ in items))
            r.look(p, has.get(p, pool[:1]))
        elif x < 0.75:
            src = rng.choice(paths)
            if src != p:
                r.conv(src, p)
                if src in has:
                    has[p] = has[src]
                r.look(p, has.get(p, pool[:1]))
        else:
            p = rng.choice(sorted(has))
            for _ in range(3):
                r.get(p, rng.choice(has[p] * 4 + ["nope"]), part=rng.random() < 0.7)
    r.done()
