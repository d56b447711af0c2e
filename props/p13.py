"""P13  what a name given to a grid denotes: kept fields, getters, processors, equations, coordinates"""
import json
import random
from falg import decode
SPEC = "NamesTrace"
MC = [dict(name="t", module="NamesMC", cfg="NamesMC.cfg", gen=True, tiers=("quick",)),
      dict(name="t", module="NamesMC", cfg="NamesMC.cfg", gen=True, tiers=("thorough",)),
      dict(name="b", module="NamesMC", cfg="NamesMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 6, "thorough": 8}
FNAMES = ["a", "b", "vx", "rho2", "_q", "Bz"]


class Rig(object):
    def __init__(self, rec, rng, name, n=None, gets=None, procs=None, alls=None, on=True, one=False):
        import numpy as np
        import viscid
        from viscid.calculator import evaluator
        self.np, self.v, self.rec, self.rng, self.ev = np, viscid, rec, rng, evaluator
        self.nd = 1 if one else rng.choice([1, 2])
        self.dims = [2] if one else [rng.choice([3, 4, 5]), rng.choice([2, 3])][:self.nd]
        self.center = "node" if one else rng.choice(["node", "cell"])
        axn = rng.choice(["xy", "rt"])[:self.nd]
        self.crdnodes = []
        for d in self.dims:
            x, p = rng.randrange(-4, 4), []
            for _ in range(d + (self.center == "cell")):
                p.append(x)
                x += rng.choice([2, 4])
            self.crdnodes.append(p)
        self.axn = axn
        at = [p if self.center == "node" else [(s + t) // 2 for s, t in zip(p[:-1], p[1:])] for p in self.crdnodes]
        self.crds = viscid.arrays2crds([0.5 * np.array(p) for p in self.crdnodes], crd_names=list(axn))
        self.ax = [dict(n=a, p=p) for a, p in zip(axn, at)]
        self.fl, self.f = [], []
        cnt = 1
        for d in self.dims:
            cnt *= d
        n = n or rng.choice([2, 3, 4])
        self.ncv = rng.choice([2, 3])
        for i in range(n):
            nc = 0 if one or rng.random() < 0.75 else self.ncv
            lay = rng.choice(["flat", "interlaced"])
            v = [rng.randrange(-3, 5) for _ in range(cnt * max(nc, 1))]
            arr = np.array(v, dtype="f8").reshape(self.dims + ([nc] if nc else []))
            if nc and lay == "flat":
                arr = np.ascontiguousarray(np.moveaxis(arr, -1, 0))
            if nc and set(self.dims) == {nc} or nc and len(self.dims) == 1 and nc in self.dims:
                nc, v = 0, v[:cnt]
                arr = np.array(v, dtype="f8").reshape(self.dims)
            f = viscid.wrap_field(arr, self.crds, name="own%d" % i, center=self.center, fldtype="vector" if nc else "scalar")
            self.fl.append(f)
            self.f.append(dict(A=dict(ax=self.ax, nc=nc, v=v), cached=False, name="own%d" % i))
        self.gets = gets if gets is not None else []
        self.procs = procs or []
        self.alls = alls or []
        K = dict(get=self.gets, proc=self.procs, all=self.alls, on=on)
        self.K = K
        body = {}
        for g in self.gets:
            body["_get_" + g["n"]] = self.getter(g["x"])
        for p in self.procs:
            body["_process_" + p["n"]] = self.processor(p)
        for p in self.alls:
            body["_processALL"] = self.processor(p)
        cls = type("G", (viscid.grid.Grid,), body)
        self.grid = cls(name="G1")
        crd = rng.random() < 0.4
        if crd:
            self.grid.set_crds(self.crds)
        self.evaluator_on = on
        crds = [dict(n=a, p=p) for a, p in zip(axn, self.crdnodes)]
        crds += [dict(n=a + "cc", p=[(s + t) // 2 for s, t in zip(p[:-1], p[1:])]) for a, p in zip(axn, self.crdnodes)]
        rec.begin(name, f=self.f, K=K, crd=crd, center=self.center, crds=crds)
        self.top = None
        how = rng.choice(["grid", "grid", "ds", "temporal"])
        if how != "grid":
            other = cls(name="G2")
            for i, f in enumerate(self.fl):
                other["abvx"[i]] = -1.0 * f
            if how == "ds":
                top = viscid.dataset.Dataset(name="D")
                top.add(other)
                top.add(self.grid)
            else:
                top = viscid.dataset.DatasetTemporal(name="D")
                other.time, self.grid.time = 5.0, 2.0
                top.add(other)
                top.add(self.grid)
            self.top = top
        self.how = how

    def getter(self, x):
        rig = self

        def value(grid, x):
            if x[0] == "num":
                return x[1]
            if x[0] == "var":
                return grid[x[1]]
            if x[0] == "un":
                return {"neg": lambda f: -f, "pow2": lambda f: f ** 2}[x[1]](value(grid, x[2]))
            l, r = value(grid, x[2]), value(grid, x[3])
            return l + r if x[1] == "+" else l - r if x[1] == "-" else l * r
        return lambda grid: value(grid, x)

    @staticmethod
    def processor(p):
        c = p["c"]
        return {"mul": lambda g, f: f * c, "add": lambda g, f: f + c, "neg": lambda g, f: -f}[p["op"]]

    # ------------------------------------------------------------ recording
    def who(self, f):
        for i, o in enumerate(self.fl):
            if o is f:
                return i + 1
        return 0

    def state(self):
        kept = [self.who(f) for f in self.grid._fields.values()]
        return dict(loaded=sorted(i for i in kept if self.fl[i - 1]._cache is not None), own=[f.name for f in self.fl])

    def out(self, fn):
        self.ev.enabled = self.evaluator_on
        try:
            fn()
            return ["ok"]
        except Exception as e:
            return ["exc", type(e).__name__, str(e)[:100]]
        finally:
            self.ev.enabled = False

    def rv(self, op, **kw):
        kw.setdefault("what", dict(k="none"))
        self.rec.ev(op=op, **dict(kw, **self.state()))

    def add(self, n, i):
        f = self.fl[i - 1]
        how = self.rng.choice(["set", "set", "add"])
        # vectors are read again: their layout may be another one
        cached = f._cache is not None and not self.f[i - 1]["A"]["nc"]

        def fn():
            self.grid[n] = f
        self.rv("add", n=n, i=i, got=self.out(fn), cached=cached)

    def dele(self, n):
        def fn():
            del self.grid[n]
        self.rv("del", n=n, got=self.out(fn))

    def get(self, what, slc=(), force=False, text=None, via=None):
        np, v = self.np, self.v
        text = text or what["n"]
        kw = {}
        if slc:
            a, b = slc
            kw["slc"] = self.rng.choice([np.s_[a:b], "%s=%di:%di" % (self.axn[0], a, b) if False else np.s_[a:b], (np.s_[a:b],) + (np.s_[:],) * (self.nd - 1)])
        if force:
            kw["force_longterm_caches"] = True
        top = self.grid if (force or self.top is None) else self.rng.choice([self.grid, self.top])
        if top is not self.grid and self.how == "temporal" and self.rng.random() < 0.5:
            kw["time"] = 2.0
        self.ev.enabled = self.evaluator_on
        r = None
        try:
            if via == "numpy":
                res, eqn = text.split("=")
                r = self.ev.evaluate(self.grid, res.strip(), eqn, try_numexpr=False, slc=kw.get("slc", Ellipsis))
            else:
                r = top.get_field(text, **kw)
            got = decode(r, 1)
        except Exception as e:
            got = ["exc", type(e).__name__, str(e)[:100]]
        finally:
            self.ev.enabled = False
        self.rv("get", what=what, slc=list(slc), force=force, got=got, same=self.who(r) != 0, name=getattr(r, "name", ""), text=text,
                via=via or "")

    def item(self, what, text=None):
        text = text or what["n"]
        top = self.rng.choice([self.grid, self.top or self.grid])
        self.ev.enabled = self.evaluator_on
        try:
            r = top[text]
            got = decode(r, 1) if isinstance(r, self.v.field.Field) or self.np.ndim(r) == 0 else ["arr", [int(round(2 * x)) for x in r]]
        except Exception as e:
            got = ["exc", type(e).__name__]
        finally:
            self.ev.enabled = False
        self.rv("item", what=what, got=got, text=text)

    def long(self, on):
        self.grid.longterm_field_caches = on
        self.rv("long", v=on)

    def clear(self):
        top = self.rng.choice([self.grid, self.top or self.grid])
        if self.rng.random() < 0.5:
            self.rv("clear", got=self.out(top.clear_cache))
        else:
            def fn():
                with top:
                    pass
            self.rv("with", got=self.out(fn))

    def names(self):
        self.rv("names", got=[hname(h) for h in self.grid.field_names], n=len(self.grid))

    def isin(self, n):
        top = self.rng.choice([self.grid, self.top or self.grid])
        self.rv("in", n=n, got=bool(n in top))

    def iter(self, ns=None):
        top = self.rng.choice([self.grid, self.top or self.grid])
        kw = {} if ns is None else dict(fld_names=ns)
        how = self.rng.choice(["fields", "items", "dict"])
        ids, keys, vals, end = [], [], [], "ok"
        allnames = list(self.grid.field_names)
        try:
            if how == "dict" and (ns is None or len(set(ns)) == len(ns)):
                # nothing to be seen when a name is wrong
                for k, f in top.field_dict(**kw).items():
                    ids.append(self.who(f))
                    keys.append(k)
                    vals.append(0)
                for f in [self.fl[i - 1] for i in ids]:
                    pass
                vals = [self.f[i - 1]["A"]["v"][0] if i else 0 for i in ids]
            elif how == "items":
                for k, f in top.iter_field_items(**kw):
                    ids.append(self.who(f))
                    keys.append(k)
                    vals.append(decode(f, 1)[1]["v"][0])
            else:
                for k, f in zip(allnames if ns is None else ns + ["?"], top.iter_fields(**kw)):
                    ids.append(self.who(f))
                    keys.append(k)
                    vals.append(decode(f, 1)[1]["v"][0])
        except Exception as e:
            end = type(e).__name__
            if how == "dict":
                # as far as it went
                for k in ns:
                    if k in self.grid:
                        i = self.who(self.grid._fields[k])
                        ids.append(i)
                        keys.append(k)
                        vals.append(self.f[i - 1]["A"]["v"][0])
                    else:
                        break
        self.rv("iter", ids=ids, keys=[hname(k) for k in keys], vals=vals, end=end, ns=ns or [], all=ns is None)


def hname(h):
    return h if isinstance(h, str) else "#%d" % h


# ------------------------------------------------------------------ equations
PREC = {"<": 1, ">": 1, "+": 2, "-": 2, "*": 3, "neg": 4, "pow2": 5}


def text_of(x, rng, outer=0):
    sp = lambda: rng.choice(["", "", " ", "  "])
    if x[0] == "num":
        s, p = rng.choice(["%d", "%d.0", "%d.", "%de0"]) % abs(x[1]), 9
        if x[1] < 0:
            s, p = "-" + s, 4
    elif x[0] == "var":
        s, p = x[1], 9
    elif x[0] == "bin":
        p = PREC[x[1]]
        s = text_of(x[2], rng, p) + sp() + x[1] + sp() + text_of(x[3], rng, p + 1)
    elif x[0] == "un":
        p = PREC[x[1]]
        s = "-" + sp() + text_of(x[2], rng, p) if x[1] == "neg" else text_of(x[2], rng, p + 1) + sp() + "**" + sp() + "2"
    elif x[0] == "call":
        p = 9
        if x[1] == "sqrt2":
            s = "sqrt" + sp() + "(" + sp() + text_of(x[2], rng, 6) + "**2" + sp() + ")"
        else:
            s = x[1] + sp() + "(" + sp() + text_of(x[2], rng) + sp() + ")"
    else:
        p = 9
        s = x[1] + sp() + "(" + text_of(x[2], rng) + sp() + "," + sp() + text_of(x[3], rng) + ")"
    if p < outer or rng.random() < 0.1:
        s = "(" + sp() + s + sp() + ")"
    return s


def expr(rng, names, d, scalar_only=False):
    k = rng.random()
    if d == 0 or k < 0.2:
        if rng.random() < 0.75:
            return ["var", rng.choice(names)]
        return ["num", rng.randrange(-3, 6)]
    if k < 0.65:
        return ["bin", rng.choice(["+", "-", "*"]), expr(rng, names, d - 1), expr(rng, names, d - 1)]
    if k < 0.75:
        return ["un", rng.choice(["neg", "neg", "pow2"]), expr(rng, names, d - 1)]
    if k < 0.9:
        return ["call", rng.choice(["abs", "square", "negative", "sqrt2", "abs", "max", "min", "sum", "nofun"] if rng.random() < 0.9 else ["open"]),
                expr(rng, names, d - 1)]
    return ["call2", rng.choice(["maximum", "minimum"]), expr(rng, names, d - 1), expr(rng, names, d - 1)]


def size(x, m):
    if x[0] == "num":
        return abs(x[1])
    if x[0] == "var":
        return m
    a = [size(y, m) for y in x[2:]]
    if x[0] == "bin" and x[1] == "*":
        return a[0] * a[1]
    if x[0] in ("bin", "call2"):
        return a[0] + a[1]
    if x[1] in ("pow2", "square", "sqrt2"):
        return a[0] ** 2
    if x[1] == "sum":
        return 45 * a[0]
    return a[0]


def hasvar(x):
    return x[0] == "var" or any(hasvar(y) for y in x[1:] if isinstance(y, list))


def equation(rng, names, cmp=True):
    for _ in range(50):
        x = expr(rng, names, rng.choice([0, 1, 2, 3]))
        if hasvar(x) and size(x, 120) < 1e7:
            break
    else:
        x = ["var", names[0]]
    if cmp and rng.random() < 0.1:
        x = ["bin", rng.choice("<>"), x, expr(rng, names, 1)]
        if size(x, 120) > 1e7:
            x = ["var", names[0]]
    return x


def drive(rec, tier, rng, shard, nshards, gen):
    import vharness
    cap = 1200 if tier == "quick" else 20000
    G = [dict(n="d", x=["bin", "+", ["var", "a"], ["num", 5]])]
    P = [dict(n="b", op="mul", c=2)]
    for i, seq in enumerate(vharness.tours(gen["t"], random.Random(rng.random()), max_events=cap, maxlen=30)):
        r = Rig(rec, rng, "gen/%d" % i, n=2, gets=G, procs=P, one=True)
        for lab in seq:
            if lab[0] == "add":
                r.add(lab[1], lab[2])
            elif lab[0] == "del":
                r.dele(lab[1])
            elif lab[0] == "get":
                r.get(dict(k="name", n=lab[1]), force=lab[2])
            elif lab[0] == "long":
                r.long(lab[1])
            else:
                r.clear()
        r.names()
    for i in range(250 if tier == "quick" else 4000):
        walk(rec, rng, "walk/%d" % i)


def walk(rec, rng, name):
    pool = list(FNAMES)
    rng.shuffle(pool)
    keep = pool[:4]
    gn = ["ga", "gb", keep[3]]
    gets, procs, alls = [], [], []
    if rng.random() < 0.7:
        x = rng.choice([["bin", "*", ["var", keep[0]], ["num", 2]], ["bin", "+", ["var", keep[0]], ["var", keep[0]]], ["un", "neg", ["var", keep[0]]]])
        gets.append(dict(n="ga", x=x))
        if rng.random() < 0.6:
            gets.append(dict(n="gb", x=["bin", "-", ["var", "ga"], ["var", keep[0]]]))
        if rng.random() < 0.5:
            gets.append(dict(n=keep[3], x=["bin", "-", ["var", keep[0]], ["num", 9]]))
    if rng.random() < 0.5:
        procs.append(dict(n=rng.choice(keep + ["ga"]), op=rng.choice(["mul", "add", "neg"]), c=rng.choice([2, 3])))
    if rng.random() < 0.25:
        alls.append(dict(n="", op=rng.choice(["add", "neg"]), c=rng.choice([2, 3])))
    r = Rig(rec, rng, name, gets=gets, procs=procs, alls=alls, on=rng.random() < 0.9)
    n = len(r.fl)
    every = keep + ["ga", "gb", "nope"]
    vec = {}
    for _ in range(rng.choice([1, 2, 3])):
        r.add(rng.choice(keep), rng.randrange(1, n + 1))
    for _ in range(30):
        op = rng.choice(["add", "del", "get", "get", "get", "get", "eqn", "eqn", "eqn", "eqn", "item", "item", "long", "clear", "names", "in", "iter",
                         "itereq"])
        slc = ()
        if rng.random() < 0.3:
            a = rng.randrange(0, r.dims[0])
            slc = (a, rng.randrange(a + 1, r.dims[0] + 1))
        if op == "add":
            r.add(rng.choice(keep), rng.randrange(1, n + 1))
        elif op == "del":
            if rng.random() < 0.4:
                r.dele(rng.choice(keep))
        elif op == "get":
            r.get(dict(k="name", n=rng.choice(every)), slc=slc, force=rng.random() < 0.15)
        elif op == "eqn":
            names = rng.sample(every[:-1], rng.choice([1, 2])) if rng.random() < 0.95 else every
            stored = [k for k in every[:6] if k in r.grid or rng.random() < 0.1]
            names = [k for k in names if k in stored] or stored[:1] or names
            if len(set(ncs(r, k) for k in names)) > 2:
                names = names[:1]
            x = equation(rng, names, cmp=not alls)
            while len(set(ncs(r, k) for k in names)) > 1 and '"call2"' in json.dumps(x):
                x = equation(rng, names, cmp=not alls)
            eq = rng.choice(["res", "c", "total_2"])
            t = eq + rng.choice(["=", " = ", "= "]) + text_of(x, rng)
            r.get(dict(k="eqn", n=eq, x=x), slc=slc, text=t, via=rng.choice([None, None, None if alls else "numpy"]))
        elif op == "itereq":
            x = equation(rng, [rng.choice(keep)], cmp=not alls)
            r.item(dict(k="eqn", n="res", x=x), text="res=" + text_of(x, rng))
        elif op == "item":
            r.item(dict(k="name", n=rng.choice(every + [r.axn[0], r.axn[0] + "cc", r.axn[-1]])))
        elif op == "long":
            r.long(rng.random() < 0.5)
        elif op == "clear":
            r.clear()
        elif op == "names":
            r.names()
        elif op == "in":
            r.isin(rng.choice(every))
        elif op == "iter":
            r.iter(None if rng.random() < 0.5 else [rng.choice(keep) for _ in range(rng.choice([1, 2]))])


def ncs(r, k):
    try:
        fld = r.grid._fields[k]
        nc = r.f[r.who(fld) - 1]["A"]["nc"]
        return (nc, nc and fld.layout)
    except KeyError:
        return (0, 0)
