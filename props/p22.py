"""P22  selecting from a field that is still on disk"""
SPEC = "LazySelTrace"
STATELESS = True
SHARDS = {"quick": 6, "thorough": 8}


class Src(object):
    """one stored field: writes the file and opens fields on it"""
    def __init__(self, f, rng, wd, k):
        import h5py
        import numpy as np
        import selcommon as S
        from viscid.readers import openggcm
        self.f, self.k = f, k
        nd = len(f["axes"])
        data = S.base_data(f)              # what the field is to show
        self.post = None
        refl = f["reflect"]
        if refl and f["sign"]:
            self.post = openggcm.mhd2gse_field_vector if f["ncomp"] else openggcm.mhd2gse_field_scalar_m1
            data = data * (np.array([-1.0, -1.0, 1.0]) if f["ncomp"] else -1.0)
        # mirror the data and the coordinates of reflected axes
        fl = tuple(slice(None, None, -1) if a["name"] in refl else slice(None) for a in f["axes"])
        data = data[fl]
        self.arrs = []
        for a in f["axes"]:
            x = np.array([v * S.UNIT for v in a["nc"]])
            self.arrs.append(-x[::-1] if a["name"] in refl else x)
        src = f["source"]
        self.fname = "%s/d%d.h5" % (wd, k)
        self.kind = src

        def native(d):                     # spatial dimensions only
            return np.transpose(d) if f["zyx"] else d
        if f["squeeze"]:
            def native(d):
                return np.squeeze(np.transpose(d) if f["zyx"] else d)
        with h5py.File(self.fname, "w") as h:
            if src == "h5" and not f["ncomp"]:
                h["d"] = np.ascontiguousarray(native(data))
            elif src == "h5t":
                h["d"] = np.ascontiguousarray(native(data).T)
            elif src == "h5c":             # one component of a dataset that holds several
                cd = f["comp_dim"]
                full = np.stack([native(data) - 7, native(data), native(data) + 7], axis=cd if cd >= 0 else nd + 1 + cd)
                h["d"] = full
            elif src == "h5" or src == "mem":
                comps = [native(data[..., c]) for c in range(3)] if f["ncomp"] else None
                if comps is None:
                    h["d"] = native(data)
                elif f["layout"] == "flat":
                    h["d"] = np.stack(comps, axis=0)
                else:
                    h["d"] = np.stack(comps, axis=-1)
            else:                          # a list of component fields
                for c in range(3):
                    h["d%d" % c] = native(data[..., c])

    def open(self):
        import h5py
        import numpy as np
        import viscid
        from viscid.readers import openggcm, vfile
        from viscid.readers.hdf5 import H5pyDataWrapper
        f = self.f
        names = [a["name"] for a in f["axes"]]
        if f["uniform"]:
            crds = viscid.coordinate.wrap_crds("uniform_cartesian", [(n, [a[0], a[-1], len(a)]) for n, a in zip(names, self.arrs)])
        else:
            crds = viscid.coordinate.wrap_crds("nonuniform_cartesian", list(zip(names, [a.copy() for a in self.arrs])))
        if f["reflect"]:
            crds.reflect_axes = f["reflect"]
        kw = dict(center=f["center"], zyx_native=f["zyx"])

        class MemWrapper(vfile.DataWrapper):
            """reads everything at once, as the readers of formatted files do"""
            def __init__(self, arr):
                super(MemWrapper, self).__init__()
                self.arr = arr
                self._shape, self._dtype = arr.shape, arr.dtype

            def __array__(self, *args, **kwargs):
                return self.arr.copy()

            def __len__(self):
                return self._shape[0]

            def __getitem__(self, item):
                return self.arr[item]
        if self.kind == "h5":
            d = H5pyDataWrapper(self.fname, "d")
        elif self.kind == "h5t":
            d = H5pyDataWrapper(self.fname, "d", transpose=True)
        elif self.kind == "h5c":
            d = H5pyDataWrapper(self.fname, "d", comp_dim=f["comp_dim"], comp_idx=1)
        elif self.kind == "mem":
            with h5py.File(self.fname, "r") as h:
                d = MemWrapper(np.array(h["d"]))
        else:
            cs = []
            for c in range(3):
                fc = viscid.field.ScalarField("f" + "xyz"[c], crds, H5pyDataWrapper(self.fname, "d%d" % c), **kw)
                if self.post is not None:
                    fc.post_reshape_transform_func = (openggcm.mhd2gse_field_scalar_m1 if c < 2
                                                      else openggcm.mhd2gse_field_scalar)
                    fc.transform_func_kwargs = dict(copy_on_transform=f["copy"])
                cs.append(fc)
            return viscid.scalar_fields_to_vector(cs, name="f")
        cls = viscid.field.VectorField if f["ncomp"] else viscid.field.ScalarField
        fld = cls("f", crds, d, **kw)
        if f["force"]:
            fld.deep_meta["force_layout"] = f["force"]
        if self.post is not None:
            fld.post_reshape_transform_func = self.post
            fld.transform_func_kwargs = dict(copy_on_transform=f["copy"])
        return fld


def drive(rec, tier, rng, shard, nshards, gen):
    import os
    import selcommon as S
    import p21
    wd = os.path.abspath(".")
    fwd(rec, tier, rng, shard, nshards)
    n = 260 if tier == "quick" else 5000
    for k in range(n):
        if k % 20 == 0:
            rec.begin("lazy/%d" % k)
        cell = rng.random() < 0.6
        ncomp = rng.choice([0, 0, 3])
        f = dict(axes=None, cell=cell, ncomp=ncomp, uniform=rng.random() < 0.4, zyx=rng.random() < 0.5,
                 center="cell" if cell else "node", layout=rng.choice(["flat", "interlaced"]),
                 source=rng.choice(["h5", "h5", "list", "mem"] if ncomp else ["h5", "h5", "h5t", "h5c", "mem"]),
                 squeeze=False, reflect=[], force="", sign=rng.random() < 0.5, copy=rng.random() < 0.5, comp_dim=rng.choice([0, -1]))
        nd = rng.choice([1, 2, 3, 3])
        f["axes"] = S.make_axes(rng, nd, cell, uniform=f["uniform"])
        if rng.random() < 0.5:
            f["reflect"] = rng.sample([a["name"] for a in f["axes"]], rng.randrange(1, nd + 1))
        sh = S.shape_of(f)
        if max(sh) == 1 or ncomp and (3 in sh or 1 in sh):
            continue
        if f["source"] in ("h5", "mem") and not ncomp and 1 in sh and rng.random() < 0.7 and len([s for s in sh if s > 1]) > 0:
            f["squeeze"] = True
        if ncomp and f["source"] in ("h5", "mem") and rng.random() < 0.4:
            f["force"] = rng.choice(["flat", "interlaced"])
        src = Src(f, rng, wd, k)
        fld = None
        for _ in range(5):
            items = S.rand_items(rng, f, arrays=rng.random() < 0.3)
            how = rng.choice(["slice", "slice", "slice", "reduce", "keep"])
            sp = S.spell(items, rng)
            state = rng.choice(["fresh", "fresh", "same", "loaded", "cleared"])
            try:
                if fld is None or state != "same":
                    fld = src.open()
                if state in ("loaded", "cleared"):
                    fld.data
                if state == "cleared":
                    fld.clear_cache()
                got = S.do_select(f, fld, items, how, sp)
            except Exception as e:
                got = dict(tag="exc", v="open:" + type(e).__name__, msg=str(e)[:200])
            rec.ev(kind="sel", f=f, items=items, how=how, got=got, spelling=repr(sp)[:200], state=state)
        os.unlink(src.fname)


def fwd(rec, tier, rng, shard, nshards):
    import itertools
    ends = lambda L: [["n"]] + [["i", k] for k in range(-L, L + 1)]
    top = 5 if tier == "quick" else 8
    k = 0
    for L in range(1, top):
        for a, b, st, rev in itertools.product(ends(L), ends(L), [None, 1, 2, 3, -1, -2, -3], [False, True]):
            k += 1
            if k % nshards != shard:
                continue
            if k % 400 < nshards:
                rec.begin("fwd/%d" % k)
            elif rec.cur is None:
                rec.begin("fwd/%d" % k)
            one(rec, [L], [["s", a, b, st or 1]], [rev], none_step=st is None)
    for k in range(400 if tier == "quick" else 6000):
        if k % 100 == 0:
            rec.begin("fwdn/%d" % k)
        nd = rng.randrange(1, 5)
        shape = [rng.randrange(1, 6) for _ in range(nd)]
        sl = []
        for L in shape:
            r = rng.random()
            if r < 0.2:
                sl.append(["i", rng.randrange(-L, L)])
            elif r < 0.3:
                sl.append(["s", ["n"], ["n"], 1])
            else:
                sl.append(["s", rng.choice(ends(L)), rng.choice(ends(L)), rng.choice([1, 1, 2, -1, -1, -2, 3])])
        for _ in range(rng.choice([0, 0, 1, 2])):
            sl.insert(rng.randrange(len(sl) + 1), ["new"])
        one(rec, shape, sl, [rng.random() < 0.5 for _ in shape], none_step=rng.random() < 0.3)


def one(rec, shape, sl, rev, none_step):
    import numpy as np
    from viscid import sliceutil

    def mk(s):
        if s[0] == "new":
            return None
        if s[0] == "i":
            return s[1]
        e = lambda x: None if x[0] == "n" else x[1]
        return slice(e(s[1]), e(s[2]), None if none_step and s[3] == 1 else s[3])
    arr = np.arange(int(np.prod(shape))).reshape(shape)
    # reverse flags go with the slices, so new axes need one too
    it = iter(rev)
    fullrev = [False if s[0] == "new" else next(it) for s in sl]
    try:
        first, second = sliceutil.make_fwd_slice(list(shape), [mk(s) for s in sl], fullrev)
        forward = all(not isinstance(s, slice) or s.step is None or s.step > 0 for s in first) and all(s is not None for s in first)
        r = arr[tuple(first)][tuple(second)]
        got = dict(tag="fwd", forward=bool(forward), shape=list(np.shape(r)), data=[int(v) for v in np.ravel(r)])
    except Exception as e:
        got = dict(tag="exc", v=type(e).__name__, msg=str(e)[:150])
    rec.ev(kind="fwd", shape=shape, sl=sl, rev=rev, got=got)
