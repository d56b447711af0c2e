"""fields, selections and their spellings, shared by P21 and P22"""
import p20

UNIT = 0.03125      # coordinates are multiples of 8 units, so that midpoints of midpoints are whole
AX = p20.Float("f8", UNIT)
COMPS = "xyz"


def sc(x):
    v = float(x) / UNIT
    r = round(v)
    return int(r) if abs(v - r) < 1e-5 else 999999


def make_axes(rng, nd, cell, maxn=5, uniform=False, names="xyz"):
    axes = []
    for d in range(nd):
        n = rng.choice([1, 2, 3, 4, 5][:maxn]) + (1 if cell else 0)
        x0 = 8 * rng.randrange(-12, 6)
        if uniform:
            st = 8 * rng.randrange(1, 4)
            nc = [x0 + i * st for i in range(n)]
        else:
            nc = [x0]
            for _ in range(n - 1):
                nc.append(nc[-1] + 8 * rng.choice([1, 2, 3, 6]))
        cc = [(a + b) // 2 for a, b in zip(nc[:-1], nc[1:])]
        axes.append(dict(name=names[d], nc=nc, cc=cc))
    return axes


def shape_of(f):
    return [len(a["cc"] if f["cell"] else a["nc"]) for a in f["axes"]]


def base_data(f):
    """C ordered, components last: every value says where it came from"""
    import numpy as np
    sh = shape_of(f) + ([f["ncomp"]] if f["ncomp"] else [])
    return np.arange(int(np.prod(sh)), dtype="f8").reshape(sh)


def ok_loc(c, v):
    ds = sorted(abs(v - x) for x in c)
    if len(c) == 1:
        return ds[0] == 0 or ds[0] > 1 / UNIT
    return ds[0] != ds[1]


def rand_loc(rng, c, inside=False):
    for _ in range(100):
        lo, hi = min(c[0], c[-1]), max(c[0], c[-1])
        v = rng.randrange(lo - (0 if inside else 9), hi + (1 if inside else 10))
        if ok_loc(c, v):
            return v
    return c[0]


def rand_sel(rng, c, arrays=True, bad=0.02):
    n = len(c)
    r = rng.random()
    if r < 0.15:
        return ["all"]
    if r < 0.3:
        k = rng.randrange(-n, n)
        return ["i", n if rng.random() < bad else k]
    if r < 0.45:
        return ["v", rand_loc(rng, c)]
    if r < 0.55 and arrays:
        t = rng.choice(["ia", "m", "va"])
        if t == "ia":
            return [t, [rng.randrange(-n, n) for _ in range(rng.randrange(1, 4))]]
        if t == "va":
            return [t, [rand_loc(rng, c) for _ in range(rng.randrange(1, 4))]]
        m = [rng.random() < 0.6 for _ in range(n)]
        m[rng.randrange(n)] = True
        return [t, m]

    step = rng.choice([1, 1, 1, 1, 2, 3, -1, -1, -2])

    def end():
        q = rng.random()
        if q < 0.35:
            return ["n"]
        if q < 0.65:
            return ["i", rng.randrange(-n - 1, n + 2)]
        return ["v", rand_loc(rng, c)]
    return ["s", end(), end(), step]


def rand_items(rng, f, arrays=True):
    axes = f["axes"]
    cs = [a["cc"] if f["cell"] else a["nc"] for a in axes]
    names = [a["name"] for a in axes]
    nd = len(axes)
    items = []
    style = rng.choice(["pos", "pos", "named", "mixed", "ell"])
    arr_left = [arrays]

    def pick(d):
        s = rand_sel(rng, cs[d], arr_left[0])
        if s[0] in ("ia", "m", "va"):
            arr_left[0] = False
        return s
    if style == "pos":
        for d in range(rng.randrange(1, nd + 1)):
            items.append(dict(ax="", sel=pick(d)))
    elif style == "named":
        order = list(range(nd))
        rng.shuffle(order)
        for d in order[:rng.randrange(1, nd + 1)]:
            items.append(dict(ax=names[d], sel=pick(d)))
    elif style == "mixed":
        d = 0
        while d < nd:
            q = rng.random()
            if q < 0.5:
                items.append(dict(ax="", sel=pick(d)))
                d += 1
            else:
                d2 = rng.randrange(d, nd)
                items.append(dict(ax=names[d2], sel=pick(d2)))
                d = d2 + 1
            if rng.random() < 0.3:
                break
        if rng.random() < 0.2:
            d = rng.randrange(nd)
            items.append(dict(ax=names[d], sel=pick(d)))
    else:
        k = rng.randrange(0, nd + 1)
        for d in range(k):
            items.append(dict(ax="", sel=pick(d)))
        items.append(dict(ax="", sel=["..."]))
        for d in range(rng.randrange(k, nd + 1), nd):
            items.append(dict(ax="", sel=pick(d)))
    if rng.random() < 0.2:
        for _ in range(rng.randrange(1, 3)):
            nm = rng.choice(["", "", "u", "w"])
            items.insert(rng.randrange(len(items) + 1), dict(ax=nm, sel=["new"]))
    if f["ncomp"] and rng.random() < 0.3:
        items.insert(rng.randrange(len(items) + 1), dict(ax="", sel=["comp", rng.randrange(3)]))
    if rng.random() < 0.03:      # malformed
        items.append(dict(ax=rng.choice(["", "q", names[0]]), sel=["i", 0]))
    return items


def spell_item(it, rng, text):
    import numpy as np
    s, nm = it["sel"], it["ax"]
    t = s[0]
    if t == "comp":
        return COMPS[s[1]]
    if t == "...":
        return rng.choice(["...", "ellipsis"]) if text else rng.choice([Ellipsis, Ellipsis, "..."])
    if t == "new":
        if nm:
            return "%s=%s" % (nm, rng.choice(["newaxis", "None"]))
        return rng.choice(["newaxis", "None"]) if text else rng.choice([None, np.newaxis, "newaxis"])
    if nm:
        return "%s=%s" % (nm, p20.render(s, AX, rng, True))
    return p20.render(s, AX, rng, text or rng.random() < 0.3)


def spell(items, rng):
    if rng.random() < 0.35:
        parts = [spell_item(it, rng, True) for it in items]
        sep = rng.choice([",", ", ", "_"])
        return sep.join(parts)
    parts = [spell_item(it, rng, False) for it in items]
    if len(parts) == 1 and rng.random() < 0.5:
        return parts[0]
    return tuple(parts)


def project(r):
    """what the library returned, as numbers"""
    import numpy as np
    import viscid
    if isinstance(r, viscid.field.Field):
        data = np.asarray(r.data)
        cell = r.iscentered("cell") or r.iscentered("face") or r.iscentered("edge")
        nc = r.nr_comps
        if nc and r.nr_comp == 0:
            data = np.moveaxis(data, 0, -1)
        crds = r.crds
        out = dict(tag="fld", axes=[str(a) for a in crds.axes],
                   nc=[[sc(x) for x in crds.get_nc(a)] for a in crds.axes],
                   cc=[[sc(x) for x in crds.get_cc(a)] for a in crds.axes],
                   data=[val(x) for x in data.reshape(-1)], ncomp=int(nc or 0), cell=bool(cell),
                   gone=[[str(a), sc(v)] for a, v in (r.meta.get("reduced") or [])])
        want = list(r.shape)
        if list(np.asarray(r.data).shape) != want:
            out["data"] = [-1]
        return out
    a = np.asarray(r)
    if a.size == 1:
        return dict(tag="num", v=val(a.reshape(-1)[0]))
    return dict(tag="arr", v=[val(x) for x in a.reshape(-1)])


def val(x):
    x = complex(x) if not isinstance(x, (int, float)) else x
    x = x.real if isinstance(x, complex) else x
    return int(x) if x == int(x) and abs(x) < 2 ** 30 else -99999


def chained(f, fld, got, how):
    """the field that a selection gave as the source of the next one, or None"""
    if got["tag"] != "fld" or not got["axes"] or not got["data"] or len(set(got["data"])) != len(got["data"]):
        return None
    f2 = dict(f, ncomp=got["ncomp"], axes=[dict(name=a, nc=n, cc=c) for a, n, c in zip(got["axes"], got["nc"], got["cc"])])
    if any(999999 in a["nc"] + a["cc"] for a in f2["axes"]) or any(a["name"] not in "xyz" for a in f2["axes"]):
        return None
    if f2["cell"] and any(len(a["cc"]) + 1 != len(a["nc"]) for a in f2["axes"]):
        return None
    if any(c != sorted(c) for a in f2["axes"] for c in (a["nc"], a["cc"])):
        return None          # locations on descending axes are outside what the library documents
    f2["src"] = {v: i for i, v in enumerate(got["data"])}
    return f2


def do_select(f, fld, items, how, sp, keep=None):
    """keep: a list that receives the resulting field"""
    got = _do_select(fld, items, how, sp, keep)
    src = f.get("src")
    if src is not None:
        if got["tag"] == "fld":
            got["data"] = [src.get(v, -1) for v in got["data"]]
        elif got["tag"] == "num":
            got["v"] = src.get(got["v"], -1)
    return got


def _do_select(fld, items, how, sp, keep):
    try:
        if how == "slice":
            r = fld[sp]
        elif how == "reduce":
            r = fld.slice_reduce(sp)
        else:
            r = fld.slice_keep(sp)
        if keep is not None:
            keep.append(r)
        return project(r)
    except Exception as e:
        return dict(tag="exc", v=type(e).__name__, msg=str(e)[:160])
