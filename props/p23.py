"""P23  fields whose values are read when they are first needed"""
import random
SPEC = "FieldStateTrace"
MC = [dict(name="lazy", module="FieldStateMC", cfg="FieldStateMC.cfg", gen=True),
      dict(name="mem", module="FieldStateMC", cfg="FieldStateMCmem.cfg", gen=True),
      dict(name="big", module="FieldStateMC", cfg="FieldStateMCbig.cfg", tiers=("thorough",), workers=8)]
SHARDS = {"quick": 6, "thorough": 8}
BIG = 10000


class Rig(object):
    def __init__(self, rec, rng, name, lazy=None, plain=False):
        import numpy as np
        import viscid
        self.np, self.v, self.rec, self.rng = np, viscid, rec, rng
        self.ver, self.reads = 1, 0
        self.nid = 100
        cell = rng.random() < 0.5
        nd = rng.choice([1, 2, 2, 3])
        self.nc = ncomp = rng.choice([0, 0, 2, 3])
        self.lazy = rng.random() < 0.7 if lazy is None else lazy
        self.slay = "scalar" if not ncomp else rng.choice(["flat", "interlaced"])
        self.aslist = ncomp and self.slay == "flat" and rng.random() < 0.3
        self.zyx = rng.random() < 0.3 and not plain
        self.func = rng.random() < 0.3 and not plain
        self.copy = rng.random() < 0.2 and not plain
        self.lay = ""
        if ncomp and rng.random() < 0.4 and not plain:
            self.lay = rng.choice(["flat", "interlaced"])
        self.names = ["x", "y", "z"][:nd]
        self.dims = [rng.choice([4, 5, 6] + ([] if ncomp else [1])) for _ in range(nd)]
        if set(self.dims) == {1}:
            self.dims[0] = 4
        while ncomp and nd > 1 and len(set(self.dims)) < nd:
            self.dims = [rng.choice([4, 5, 6, 7]) for _ in range(nd)]
        self.pos = []       # visible positions of the values
        cl = []
        refl = [n for n in self.names if rng.random() < 0.25 and not plain]
        for n, d in zip(self.names, self.dims):
            x0, h = rng.randrange(-20, 20) * 1.0, rng.choice([1.0, 0.5, 2.0])
            m = d + (1 if cell else 0)
            nodes = x0 + h * np.arange(m)
            vis = -nodes[::-1] if n in refl else nodes
            self.pos.append(list(0.5 * (vis[1:] + vis[:-1]) if cell else vis))
            cl.append([n, nodes])
        uni = rng.random() < 0.5
        kw = {"reflect_axes": refl} if refl else {}
        if uni:
            crds = viscid.wrap_crds("uniform_cartesian", [[n, [a[0], a[-1], len(a)]] for n, a in cl], **kw)
        else:
            crds = viscid.wrap_crds("nonuniform_cartesian", cl, **kw)
        self.refl = [n in refl for n in self.names]
        raw = self.raw
        world = self

        class Src(viscid.readers.vfile.DataWrapper):
            def __init__(self, comp=None):
                super(Src, self).__init__()
                self.comp = comp
                self._shape = self.get(1).shape
                self._dtype = np.dtype("f8")

            def get(self, ver):
                a = raw(ver)
                return a if self.comp is None else a[self.comp]

            def __array__(self, *args, **kwargs):
                if not self.comp:
                    world.reads += 1
                return self.get(world.ver)

            def __getitem__(self, item):
                return self.__array__()[item]

            def __len__(self):
                return self._shape[0]

        if self.lazy:
            src = [Src(c) for c in range(ncomp)] if self.aslist else Src()
        else:
            a = raw(50)
            src = [a[c] for c in range(ncomp)] if self.aslist else a
        kw = {}
        if self.zyx:
            kw["zyx_native"] = True
        if self.copy:
            kw["_copy"] = True
        if self.lay:
            kw["_force_layout"] = self.lay
        if self.func:
            kw["post_reshape_transform_func"] = lambda fld, c, arr, k: k - arr
            kw["transform_func_kwargs"] = dict(k=7.0)
        f = viscid.wrap_field(src, crds, name="f", fldtype="vector" if ncomp else "scalar", center="cell" if cell else "node", **kw)
        self.f = [f]
        self.scale = [1.0]
        rec.begin(name, lazy=self.lazy, cp=self.copy, tr=bool(self.zyx or self.func or self.aslist), lay=self.lay, slay=self.slay,
                  dims=self.dims, ncomp=ncomp, zyx=self.zyx, func=self.func, refl=refl, uni=uni, aslist=bool(self.aslist),
                  cell=cell)

    # ---- the contents
    def base(self, c):
        """as seen: C order, components last"""
        np = self.np
        sh = self.dims + ([self.nc] if self.nc else [])
        return c * BIG + np.arange(int(np.prod(sh)), dtype="f8").reshape(sh)

    def arranged(self, c, lay):
        a = self.base(c)
        if self.nc and lay == "flat":
            a = self.np.moveaxis(a, -1, 0)
        return self.np.ascontiguousarray(a)

    def raw(self, c):
        """as the source has it"""
        np = self.np
        a = self.base(c)
        if self.func:
            a = 7.0 - a
        for d, r in enumerate(self.refl):
            if r:
                a = np.flip(a, d)
        nd = len(self.dims)
        if self.zyx:
            a = a.transpose(list(range(nd))[::-1] + ([nd] if self.nc else []))
        if self.nc and self.slay == "flat":
            a = np.moveaxis(a, -1, 0)
        return np.ascontiguousarray(a)

    def decode(self, k, arr, lay):
        """which content is it? every value must be the one that belongs at its coordinates"""
        np = self.np
        F = self.f[k]
        arr = np.asarray(arr)
        if list(arr.shape) != [int(n) for n in F.shape]:
            return 999998
        if self.nc and lay == "flat":
            arr = np.moveaxis(arr, 0, -1)
        ix = []
        for ax, c in zip(F.crds.axes, F.get_crds()):
            if ax in self.names:
                p = {round(x * self.scale[k], 6): i for i, x in enumerate(self.pos[self.names.index(ax)])}
                ix.append([p.get(round(float(x), 6), -77) for x in c])
            elif len(c) != 1:
                return 999997
        if [a for a in F.crds.axes if a in self.names] != self.names:
            return 999996
        if self.nc:
            ix.append(list(range(self.nc)))
        arr = arr.reshape([len(i) for i in ix])
        if any(-77 in i for i in ix) or list(arr.shape) != list(self.base(1).shape):
            return 999995
        d = (arr - self.base(0)[np.ix_(*ix)]) / BIG
        return int(d.flat[0]) if np.all(d == d.flat[0]) and d.flat[0] == int(d.flat[0]) else 999999

    def ev(self, op, fn, **kw):
        try:
            got = fn()
            if got is None:
                got = ["ok"]
        except Exception as e:
            got = ["exc", "%s: %s" % (type(e).__name__, str(e)[:120])]
        self.rec.ev(op=op, got=got, loaded=[bool(f.is_loaded) for f in self.f], reads=self.reads,
                    lays=[self.layof(f) for f in self.f], **kw)

    def layof(self, f):
        try:
            return str(f.layout) if self.nc else "scalar"
        except Exception as e:
            return "exc " + type(e).__name__

    # ---- operations
    def bump(self):
        if self.ver >= 40:
            return
        self.ver += 1
        self.ev("bump", lambda: None)

    def look(self, i, how=None):
        np, F = self.np, self.f[i - 1]
        how = self.rng.choice(["data", "data", "array", "resolve", "flat", "iter", "ell", "sum"]) if how is None else how

        def fn():
            if how == "array":
                a = np.asarray(F)
            elif how == "resolve":
                a = F.resolve().data
            elif how == "flat":
                a = F.flat_data.reshape(F.shape)
            elif how == "iter":
                a = np.array(list(F)).reshape(F.shape)
            elif how == "ell":
                F.data
                a = F[...].data
            elif how == "sum":
                a = (F + 0.0)
                if not hasattr(a, "data") or np.ndim(a) == 0:
                    a = np.reshape(a, F.shape)
                else:
                    a = a.data
            else:
                a = F.data
            return ["v", self.decode(i - 1, a, F.layout if self.nc else "scalar")]
        self.ev("look", fn, i=i, how=how)

    def ask(self, i):
        F, rng = self.f[i - 1], self.rng
        what = rng.choice(["shape", "size", "crds", "layout", "comps", "dtype", "xl", "repr", "points"])

        def fn():
            if what == "shape":
                assert [int(n) for n in F.sshape] == [len(c) for c in F.get_crds()]
                assert len(F.shape) == len(F.sshape) + (1 if self.nc else 0) and len(F) == F.shape[0]
            elif what == "size":
                assert F.size == self.np.prod(F.shape) and F.ssize == self.np.prod(F.sshape)
            elif what == "crds":
                F.get_crds_nc(), F.get_crds_cc(), F.crds.shape_cc
            elif what == "layout":
                F.layout
            elif what == "comps":
                assert F.nr_comps == self.nc
                if self.nc:
                    assert F.nr_comp == (0 if F.layout == "flat" else len(F.sshape))
            elif what == "dtype":
                assert F.dtype == self.np.dtype("f8")
            elif what == "xl":
                F.xl, F.xh
            elif what == "repr":
                repr(F), str(F)
            else:
                F.nr_points
        self.ev("ask", fn, i=i, what=what)

    def clear(self, i):
        F = self.f[i - 1]

        def fn():
            if self.rng.random() < 0.5:
                F.clear_cache()
            else:
                with F as g:
                    assert g is F
        self.ev("clear", fn, i=i)

    def newid(self):
        self.nid += 1
        return self.nid

    def fit(self, i, c, lay):
        return self.arranged(c, lay).reshape([int(n) for n in self.f[i - 1].shape]) if lay == self.f[i - 1].layout or not self.nc else self.arranged(c, lay)

    def write(self, i):
        F, c = self.f[i - 1], self.newid()
        how = self.rng.randrange(3)

        def fn():
            a = self.fit(i, c, F.layout if self.nc else "scalar")
            if how == 0:
                F[...] = a
            elif how == 1:
                F.data[...] = a
            else:
                F[:] = a
        self.ev("write", fn, i=i, c=c, how=how)

    def forget(self, i):
        self.ev("forget", lambda: self.f[i - 1].forget_source(), i=i)

    def assign(self, i):
        F, c = self.f[i - 1], self.newid()
        lay = F.layout if self.nc else "scalar"
        if self.nc and len(F.sshape) == len(self.dims) and self.rng.random() < 0.3:
            lay = self.rng.choice(["flat", "interlaced"])

        def fn():
            F.data = self.fit(i, c, lay)
        self.ev("assign", fn, i=i, c=c, lay=lay)

    def setlay(self, i, lay=None):
        lay = lay or self.rng.choice(["flat", "interlaced"])

        def fn():
            self.f[i - 1].layout = lay if self.rng.random() < 0.7 else lay.upper()
        self.ev("setlay", fn, i=i, lay=lay)

    def made(self, i, g, scale=1.0):
        if g is self.f[i - 1]:
            return ["same"]
        self.f.append(g)
        self.scale.append(self.scale[i - 1] * scale)
        return ["new"]

    def shell(self, i, force, adjust=False):
        F = self.f[i - 1]
        if adjust and force:
            self.ev("shell", lambda: self.made(i, F.adjust_crds(2.0), 2.0), i=i, force=True, adjust=True)
        else:
            self.ev("shell", lambda: self.made(i, F.shell_copy(force=True) if force else F.shell_copy()), i=i, force=force)

    def recenter(self, i, same=False):
        F = self.f[i - 1]
        cell = F.iscentered("cell") == same
        if self.rng.random() < 0.5:
            fn = lambda: self.made(i, F.as_cell_centered() if cell else F.as_node_centered())
        else:
            fn = lambda: self.made(i, F.as_centered("cell" if cell else "Node"))
        self.ev("recenter", fn, i=i, same=same)

    def expand(self, i):
        F = self.f[i - 1]
        self.ev("expand", lambda: self.made(i, F.atleast_3d()), i=i, same=len(F.sshape) >= 3)

    def rewrap(self, i):
        self.ev("rewrap", lambda: self.made(i, self.v.field.rewrap_field(self.f[i - 1])), i=i)


def drive(rec, tier, rng, shard, nshards, gen):
    import vharness
    cap = 1200 if tier == "quick" else 12000
    for kind in ("lazy", "mem"):
        for n, seq in enumerate(vharness.tours(gen[kind], random.Random(rng.random()), max_events=cap, maxlen=25)):
            r = Rig(rec, rng, "gen/%s%d" % (kind, n), lazy=kind == "lazy", plain=kind == "mem")
            for lab in seq:
                step(r, lab)
            for i in range(1, len(r.f) + 1):
                r.look(i)
    for k in range(100 if tier == "quick" else 2000):
        walk(rec, rng, "walk/%d" % k, 30)


def step(r, lab):
    op = lab[0]
    if len(lab) > 1 and lab[1] > len(r.f):
        return
    if op == "setlay":
        if r.nc:
            r.setlay(lab[1], lab[2])
    elif op == "shell":
        r.shell(lab[1], lab[2])
    elif op == "bump":
        r.bump()
    elif op == "look" or op == "clear" or op == "write" or op == "forget" or op == "assign":
        getattr(r, op)(lab[1])
    elif op == "recenter":
        r.recenter(lab[1])
    elif op == "expand":
        r.expand(lab[1])


def walk(rec, rng, name, n):
    r = Rig(rec, rng, name)
    for _ in range(n):
        i = rng.randrange(1, len(r.f) + 1)
        x = rng.random()
        if x < 0.1:
            r.bump()
        elif x < 0.35:
            r.look(i)
        elif x < 0.42:
            r.ask(i)
        elif x < 0.54:
            r.clear(i)
        elif x < 0.6:
            r.write(i)
        elif x < 0.65:
            r.forget(i)
        elif x < 0.7:
            r.assign(i)
        elif x < 0.76:
            if r.nc:
                r.setlay(i)
        elif len(r.f) < 6:
            y = rng.random()
            if y < 0.3:
                r.shell(i, rng.random() < 0.5, adjust=rng.random() < 0.5)
            elif y < 0.65:
                r.recenter(i, same=rng.random() < 0.15)
            elif y < 0.85:
                r.expand(i)
            else:
                r.rewrap(i)
