"""P21  slicing fields keeps values with their coordinates"""
SPEC = "FieldSelTrace"
STATELESS = True
MC = [dict(name="chains", module="FieldSelMC", cfg="FieldSelMC.cfg", gen=True, tiers=("quick",), workers=4),
      dict(name="chains", module="FieldSelMC", cfg="FieldSelMCbig.cfg", gen=True, tiers=("thorough",), workers=6)]
SHARDS = {"quick": 6, "thorough": 8}


def make_field(f, rng):
    import numpy as np
    import viscid
    from viscid import field
    import selcommon as S
    arrs = [np.array([x * S.UNIT for x in a["nc"]]) for a in f["axes"]]
    names = [a["name"] for a in f["axes"]]
    if f["uniform"]:
        crds = viscid.coordinate.wrap_crds("uniform_cartesian",
                                           [(n, [a[0], a[-1], len(a)]) for n, a in zip(names, arrs)])
    else:
        crds = viscid.coordinate.wrap_crds("nonuniform_cartesian", list(zip(names, arrs)))
    data = S.base_data(f)
    typ = "Scalar"
    if f["ncomp"]:
        typ = "Vector"
        if f["layout"] == "flat":
            data = np.ascontiguousarray(np.moveaxis(data, -1, 0))
    return viscid.wrap_field(data, crds, name="f", fldtype=typ, center=f["center"])


def drive(rec, tier, rng, shard, nshards, gen):
    import selcommon as S
    replay(rec, rng, gen, shard, nshards)
    n = 500 if tier == "quick" else 12000
    for k in range(n):
        if k % 20 == 0:
            rec.begin("rand/%d" % k)
        cell = rng.random() < 0.5
        f = dict(axes=None, cell=cell, ncomp=rng.choice([0, 0, 3]), uniform=rng.random() < 0.5,
                 center=rng.choice(["cell", "cell", "face", "edge"]) if cell else "node",
                 layout=rng.choice(["flat", "interlaced"]))
        nd = rng.choice([1, 2, 2, 3])
        if f["center"] in ("face", "edge"):
            nd = 3
        f["axes"] = S.make_axes(rng, nd, cell, uniform=f["uniform"])
        if max(S.shape_of(f)) == 1 or f["ncomp"] and ambiguous(S.shape_of(f)):
            continue
        try:
            fld = make_field(f, rng)
        except Exception as e:
            rec.ev(f=f, items=[], how="slice", got=dict(tag="exc", v="make:" + type(e).__name__, msg=str(e)[:200]))
            continue
        for _ in range(4):
            items = S.rand_items(rng, f)
            how = rng.choice(["slice", "slice", "slice", "reduce", "keep"])
            sp = S.spell(items, rng)
            one(rec, rng, f, fld, items, how, sp, 0)


def one(rec, rng, f, fld, items, how, sp, depth):
    import selcommon as S
    kept = []
    raw = S.do_select(f, fld, items, how, sp, kept)
    rec.ev(f={k: v for k, v in f.items() if k != "src"}, items=items, how=how, got=raw, spelling=repr(sp)[:200])
    if depth == 2 or not kept:
        return
    try:
        got = S.project(kept[0])      # the values of the result itself, to number them anew
        f2 = S.chained(f, fld, got, how)
    except Exception:
        return
    if f2 is None or f2["ncomp"] and ambiguous(S.shape_of(f2)):
        return
    f3 = kept[0]
    f3.meta.pop("reduced", None)
    items = S.rand_items(rng, f2)
    one(rec, rng, f2, f3, items, rng.choice(["slice", "slice", "reduce", "keep"]), S.spell(items, rng), depth + 1)


def replay(rec, rng, gen, shard, nshards):
    """every chain of selections of the model, spelled at random"""
    import selcommon as S
    k = 0
    for i, g in enumerate(gen["chains"]):
        if i % nshards != shard:
            continue
        root, path = g[1], g[2]
        f = dict(root, uniform=False, center="cell" if root["cell"] else "node", layout=rng.choice(["flat", "interlaced"]))
        if f["ncomp"] and ambiguous(S.shape_of(f)):
            continue
        if k % 40 == 0:
            rec.begin("chain/%d" % k)
        k += 1
        fld = make_field(f, rng)
        for d, st in enumerate(path):
            kept = []
            sp = S.spell(st["items"], rng)
            got = S.do_select(f, fld, st["items"], st["how"], sp, kept)
            if d == len(path) - 1:
                rec.ev(f={k2: v for k2, v in f.items() if k2 != "src"}, items=st["items"], how=st["how"], got=got,
                       spelling=repr(sp)[:200])
                break
            if not kept:
                break
            f = S.chained(f, fld, S.project(kept[0]), st["how"])
            if f is None or f["ncomp"] and ambiguous(S.shape_of(f)):
                break
            fld = kept[0]
            fld.meta.pop("reduced", None)


def ambiguous(sh):
    """shapes for which the library cannot tell flat from interlaced storage"""
    return set(sh) == {3}
