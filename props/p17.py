"""P17  an XDMF file shows what it describes"""
import os
import shutil
import tempfile
from falg import decode
SPEC = "XdmfTrace"
STATELESS = True
MC = [dict(name="t", module="XdmfMC", cfg="XdmfMC.cfg"),
      dict(name="all", module="XdmfMC", cfg="XdmfMCbig.cfg", tiers=("thorough",)),
      dict(name="nested", module="XdmfMC", cfg="XdmfMCnested.cfg", tiers=("thorough",))]
SHARDS = {"quick": 4, "thorough": 8}
KEYS = ["run", "dx", "note", "list"]
NONE = 999999
TY = {"f4": ("Float", 4), "f8": ("Float", 8), "i4": ("Int", 4), "i8": ("Int", 8), "u2": ("UInt", 2), "u1": ("UChar", 1),
      "i1": ("Char", 1)}


class Doc(object):
    """one description, made at random, and written down"""

    def __init__(self, rng, where, np):
        self.rng, self.dir, self.np = rng, where, np
        self.nfile = 0
        self.h5 = {}
        self.one_h5 = rng.random() < 0.5
        self.files = {}
        self.form = None

    # ------------------------------------------------------------- the tree
    def time(self, n=0, kinds=("single",)):
        k = self.rng.choice(kinds)
        if k == "single":
            return [dict(k=k, v=[self.rng.choice([0, 0, self.rng.randrange(-20, 60)])])]
        if k == "list":
            return [dict(k=k, v=[self.rng.randrange(-20, 60) for _ in range(max(1, n + self.rng.choice([0, 0, 0, 1, -1])))])]
        return [dict(k=k, v=[self.rng.randrange(-20, 60), self.rng.choice([-4, 2, 4, 7]), n])]

    def topo(self, sphere):
        r = self.rng
        if sphere:
            return [dict(ty="2DSMesh", d=[r.choice([2, 3, 4, 5, 7]), r.choice([2, 3, 4, 5, 7])])]
        d = [r.choice([1, 2, 2, 3, 4]) for _ in range(3)]
        return [dict(ty=r.choice(["3DRectMesh", "3DRectMesh", "3DCoRectMesh"]), d=d)]

    def geo(self, topo):
        r = self.rng
        if topo["ty"] == "2DSMesh":
            return [dict(k="sphere", v=[])]
        if topo["ty"] == "3DCoRectMesh" or r.random() < 0.2:
            return [dict(k="origin", v=[[r.randrange(-9, 9) for _ in range(3)], [r.choice([2, 4, 6]) for _ in range(3)]])]
        v = []
        for n in reversed(topo["d"]):
            x = r.randrange(-8, 8)
            p = []
            for _ in range(n):
                p.append(x)
                x += r.choice([2, 2, 4, 6])
            v.append(p)
        return [dict(k="each", v=v)]

    def info(self):
        r = self.rng
        out = []
        while r.random() < 0.4:
            k = r.choice(KEYS)
            if k == "list":
                out.append([k, ["numbers"] + [str(r.randrange(-9, 99)) for _ in range(r.randrange(1, 5))]])
            else:
                out.append([k, ["text", r.choice(["a", "two words", "1.5", "", "x<y & z", "0"])]])
        return out

    def attr(self, topo, k):
        r = self.rng
        d = list(topo["d"])
        center = r.choice(["node", "cell"]) if min(d) > 1 and len(d) == 3 else "node"
        if center == "cell":
            d = [n - 1 for n in d]
        nc = 3 if len(d) == 3 and r.random() < 0.35 and d != [3, 3, 3] else 0
        n = 1
        for q in d:
            n *= q
        n *= nc or 1
        dt = r.choice(["f4", "f4", "f8", "i4", "i8", "u2", "u1", "i1"])
        lo = 0 if dt[0] == "u" else -90
        return dict(n=["p", "rho", "b b", "v_x", "T"][k], center=center, nc=nc, dt={"f4": "float32", "f8": "float64", "i4": "int32",
                    "i8": "int64", "u2": "uint16", "u1": "uint8", "i1": "int8"}[dt], ty=dt,
                    data=[r.randrange(lo, 100) for _ in range(n)], info=self.info(), d=d)

    def uniform(self, around, name, timeless):
        r = self.rng
        topo = geo = []
        tp = around["topo"]
        if not tp or not around["geo"] or r.random() < 0.5:
            topo = self.topo(r.random() < 0.1 and not around["rect"])
            tp = topo
            geo = self.geo(tp[0])
        elif r.random() < 0.3 and tp[0]["ty"] == "3DRectMesh":
            geo = self.geo(tp[0])
        if not around["geo"] and r.random() < 0.05:
            geo = []
        attrs = [self.attr(tp[0], k) for k in range(r.choice([0, 1, 1, 2, 3]))]
        if not attrs and around["rect"]:
            attrs = [self.attr(tp[0], 0)]
        return dict(gt="Uniform", name=name, t=[] if timeless else self.time(), topo=topo, geo=geo, info=self.info(), attrs=attrs, kids=[])

    def grid(self, depth, around, name):
        r = self.rng
        if depth == 0 or r.random() < 0.15:
            return self.uniform(around, name, r.random() < 0.5)
        gt = "Temporal" if around["top"] and r.random() < 0.7 else "Spatial" if r.random() < 0.9 else "Temporal"
        if around["rect"]:
            gt = "Spatial"
        topo, geo = [], []
        if r.random() < 0.35:
            topo = self.topo(False)
            if r.random() < 0.7:
                geo = self.geo(topo[0])
        n = r.choice([1, 2, 2, 3, 3, 4])
        inner = dict(topo=topo or around["topo"], geo=geo or (around["geo"] if not topo else []), top=False, rect=around["rect"])
        g = dict(gt=gt, name=name, t=[], topo=topo, geo=geo, info=self.info(), attrs=[], kids=[])
        if topo and not geo and around["geo"]:
            g["topo"], inner["topo"], inner["geo"] = [], around["topo"], around["geo"]
        x = r.random()
        if gt == "Temporal":
            g["t"] = self.time(n, ("list", "list", "slab", "single")) if x < 0.6 else []
        elif x < 0.5:
            g["t"] = self.time()
        if gt == "Spatial":
            inner["rect"] = True
        timed = bool(g["t"]) or around.get("timed")
        inner["timed"] = timed
        for i in range(n):
            nm = "" if r.random() < 0.2 else "%s%s%d" % (name[:1] or "g", r.choice(["", "-", "_"]), i)
            if gt == "Spatial":
                k = self.uniform(inner, nm, r.random() < 0.6)
            elif r.random() < 0.1:
                k = dict(gt=r.choice(["Tree", "Subset"]), name=nm, t=[], topo=[], geo=[], info=[], attrs=[], kids=[])
            else:
                k = self.grid(depth - 1, inner, nm)
                if gt == "Temporal" and not timed and not k["t"] and (k["gt"] != "Uniform" or r.random() < 0.95):
                    k["t"] = self.time()
            g["kids"].append(k)
        if gt == "Temporal" and g["t"] and g["t"][0]["k"] != "single":
            # some members are left without a time by a short list
            for k in g["kids"][len(g["t"][0]["v"]) if g["t"][0]["k"] == "list" else g["t"][0]["v"][2]:]:
                if not k["t"] and k["gt"] != "Tree":
                    k["t"] = self.time()
        return g

    # ------------------------------------------------------------- writing
    def q(self, s):
        return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")

    def num(self, x, per=1):
        r = self.rng
        if x % per == 0 and r.random() < 0.5:
            return "%d" % (x // per)
        return ("%r" % (x / float(per))) if r.random() < 0.8 else "%.6e" % (x / float(per))

    def dims(self, d):
        return (" " if not self.odd or self.rng.random() < 0.7 else "  ").join(str(n) for n in d)

    def item(self, vals, d, ty, per=1, name=None, inline=False):
        r, np = self.rng, self.np
        nt, pr = TY[ty]
        at = ""
        if name:
            at += ' Name="%s"' % name
        if d is not None:
            at += ' Dimensions="%s"' % self.dims(d)
        if not (ty == "f4" and r.random() < 0.3):
            at += ' NumberType="%s" Precision="%d"' % (nt, pr)
        if inline or r.random() < 0.5:
            fmt = ' Format="XML"' if r.random() < 0.7 else ""
            txt = [self.num(x, per) if ty[0] == "f" else str(x) for x in vals]
            sep = r.choice([" ", " ", "\n", "  ", "\t"])
            body = sep.join(txt)
        else:
            import h5py
            fmt = ' Format="HDF"'
            self.nh5 = getattr(self, "nh5", 0) + 1
            fn = "data.h5" if self.one_h5 else "d%d.h5" % r.randrange(3)
            loc = "%s/a%d" % (r.choice(["", "/grp", "/grp/sub"]), self.nh5)
            with h5py.File(os.path.join(self.dir, fn), "a") as h:
                h[loc] = (np.array(vals) / per if ty[0] == "f" else np.array(vals)).astype(ty).reshape(d if d is not None else [-1])
            path = fn
            if self.sub or r.random() < 0.2:
                path = os.path.join(self.dir, fn)
            body = "%s:%s" % (path, loc)
        pad = r.choice(["", " ", "\n    "])
        return "<DataItem%s%s>%s%s%s</DataItem>" % (at, fmt, pad, body, pad)

    def w_info(self, info):
        out = ""
        for k, v in info:
            if v[0] == "numbers":
                out += '<Information Name="%s">%s</Information>' % (k, self.item([int(x) for x in v[1:]], [len(v) - 1], "i4"))
            elif self.rng.random() < 0.7 or not v[1]:
                out += '<Information Name="%s" Value="%s"/>' % (k, self.q(v[1]))
            else:
                out += '<Information Name="%s">%s</Information>' % (k, self.q(v[1]))
        return out

    def w_grid(self, g):
        r = self.rng
        if g["gt"] in ("Spatial", "Temporal"):
            at = 'GridType="Collection"'
            if g["gt"] == "Temporal" or r.random() < 0.7:
                at += ' CollectionType="%s"' % g["gt"]
        elif g["gt"] == "Uniform" and r.random() < 0.3:
            at = ""
        else:
            at = 'GridType="%s"' % g["gt"]
        if g["name"]:
            at = 'Name="%s" %s' % (g["name"], at)
        parts = []
        if g["t"]:
            t = g["t"][0]
            if t["k"] == "single":
                ty = ' Type="Single"' if r.random() < 0.7 else ""
                parts.append('<Time%s Value="%s"/>' % (ty, self.num(t["v"][0], 4)))
            else:
                parts.append('<Time Type="%s">%s</Time>' % (dict(list="List", slab="HyperSlab")[t["k"]],
                             self.item_time(t)))
        if g["topo"]:
            tp = g["topo"][0]
            parts.append('<Topology TopologyType="%s" Dimensions="%s"/>' % (tp["ty"], self.dims(tp["d"])))
        if g["geo"]:
            parts.append(self.w_geo(g["geo"][0], g["topo"]))
        parts.append(self.w_info(g["info"]))
        for a in g["attrs"]:
            aty = "Vector" if a["nc"] else "Scalar"
            h = 'Name="%s"' % a["n"]
            if a["nc"] or r.random() < 0.7:
                h += ' AttributeType="%s"' % aty
            if a["center"] == "cell" or r.random() < 0.7:
                h += ' Center="%s"' % (a["center"].capitalize() if r.random() < 0.7 else a["center"])
            d = a["d"] + ([a["nc"]] if a["nc"] else [])
            parts.append("<Attribute %s>%s%s</Attribute>" % (h, self.w_info(a["info"]), self.item(a["data"], d, a["ty"])))
        if r.random() < 0.3:
            # the parts of a grid can come in any order
            na = len(g["attrs"])
            own, at2 = parts[:len(parts) - na], parts[len(parts) - na:]
            r.shuffle(own)
            order = sorted([r.random() for _ in at2])
            parts = [q for _, q in sorted([(r.random(), q) for q in own] + list(zip(order, at2)))]
        kids = ""
        for k in g["kids"]:
            if r.random() < self.inc:
                kids += self.include(k)
            else:
                kids += self.w_grid(k)
        return "\n<Grid %s>%s\n</Grid>" % (at, "\n  ".join(parts) + kids if r.random() < 0.7 else kids + "\n".join(parts))

    def item_time(self, t):
        v = t["v"]
        if t["k"] == "slab":
            v = v[:2] + [4 * v[2]]
        return self.item(v, [len(v)], self.rng.choice(["f4", "f8"]), 4)

    def w_geo(self, g, topo):
        r = self.rng
        if g["k"] == "sphere":
            n = topo[0]["d"][0] * topo[0]["d"][1]
            return '<Geometry GeometryType="XYZ">%s</Geometry>' % self.item([0] * (3 * n), [3 * n], "f4")
        if g["k"] == "origin":
            nm = r.choice(["ORIGIN_DXDYDZ", "Origin_DxDyDz"])
            ty = r.choice(["f4", "f8"])
            return '<Geometry GeometryType="%s">%s%s</Geometry>' % (nm, self.item(g["v"][0], [3], ty, 2, name="Origin"),
                                                                   self.item(g["v"][1], [3], ty, 2, name="Spacing"))
        nm, pre = r.choice([("VXVYVZ", "V"), ("VxVyVz", "V"), ("X_Y_Z", "")])
        its = []
        for a, p in zip("XYZ", g["v"]):
            n = pre + a if r.random() < 0.8 else (pre + a.lower() if pre else a.lower())
            its.append(self.item(p, [len(p)], r.choice(["f4", "f8"]), 2, name=n))
        if r.random() < 0.3:
            r.shuffle(its)
        return '<Geometry GeometryType="%s">%s</Geometry>' % (nm, "".join(its))

    def include(self, g):
        r = self.rng
        sub0 = self.sub
        if r.random() < 0.3:
            self.sub = os.path.join(self.sub, "in%d" % r.randrange(2))
            os.makedirs(os.path.join(self.dir, self.sub), exist_ok=True)
        self.nfile += 1
        fn = "part_%d.xdmf" % self.nfile
        ins = self.inc
        body = self.w_grid(g)
        with open(os.path.join(self.dir, self.sub, fn), "w") as f:
            f.write(self.head() + body + "\n</Domain></Xdmf>\n")
        rel = os.path.relpath(os.path.join(self.dir, self.sub, fn), os.path.join(self.dir, sub0))
        if r.random() < 0.2:
            rel = "./" + rel
        self.sub, self.inc = sub0, ins
        return '\n<xi:include href="%s" xpointer="xpointer(//Xdmf/Domain/Grid)"/>' % rel

    def head(self):
        return ('<?xml version="1.0" ?>\n<Xdmf xmlns:xi="http://www.w3.org/2001/XInclude" Version="2.0">\n<Domain>')

    def write(self, doc, odd):
        self.odd = odd
        self.sub = ""
        self.inc = self.rng.choice([0, 0, 0, 0.3, 1])
        body = "".join(self.w_grid(g) for g in doc)
        fn = os.path.join(self.dir, "main.%s" % self.rng.choice(["xdmf", "xmf"]))
        with open(fn, "w") as f:
            f.write(self.head() + body + "\n</Domain></Xdmf>\n")
        return fn


class Run(object):
    def __init__(self, rec, rng):
        import numpy as np
        import viscid
        self.np, self.v, self.rec, self.rng = np, viscid, rec, rng

    def t(self, n):
        x = n.time
        if x is None:
            return NONE
        x = 4 * float(x)
        return int(round(x)) if abs(x - round(x)) < 1e-4 else "odd %r" % x

    def info(self, n):
        out = []
        for k in KEYS:
            x = n.find_info(k, default=None)
            if x is None:
                out.append(["none"])
            elif isinstance(x, str):
                out.append(["text", x])
            else:
                out.append(["numbers"] + ["%g" % q for q in self.np.asarray(x).ravel()])
        return out

    def name(self, n):
        return n.name if isinstance(n.name, str) and " @ 0x" not in n.name else ""

    def show(self, n):
        v = self.v
        from viscid.amr_grid import AMRGrid
        from viscid.dataset import DatasetTemporal, Dataset
        if isinstance(n, AMRGrid):
            return dict(k="patches", t=self.t(n), info=self.info(n), kids=[self.show(g) for g in n._src_grids])
        if isinstance(n, v.grid.Grid):
            c = n.crds
            ax = []
            for a in c.axes:
                u = c.get_unit(a)
                ax.append(dict(n="%s[%s]" % (a, u) if u else str(a), p=self.half(c.get_nc(a))))
            flds = []
            for nm in n.field_names:
                f = n[nm] if self.rng.random() < 0.5 else n.get_field(nm)
                d = decode(f, 1)
                if d[0] != "fld":
                    return d
                d = d[1]
                flds.append(dict(n=str(f.name), center=str(f.center).lower(), nc=d["nc"], dt=str(f.dtype), ax=d["ax"], v=d["v"], t=self.t(f),
                                 info=self.info(f)))
            return dict(k="grid", name=self.name(n), t=self.t(n), info=self.info(n), ax=ax, flds=flds)
        if isinstance(n, DatasetTemporal):
            return dict(k="series", name=self.name(n), t=self.t(n), info=self.info(n), kids=[self.show(c) for _, c in n.children])
        if isinstance(n, Dataset):
            return dict(k="set", name=self.name(n), t=self.t(n), info=self.info(n), kids=[self.show(c) for c in n.children])
        return ["odd", repr(type(n))]

    def half(self, p):
        return [int(round(2 * float(x))) for x in p]

    def one(self):
        rng, v = self.rng, self.v
        where = tempfile.mkdtemp(prefix="xdmf")
        try:
            d = where
            if rng.random() < 0.3:
                d = os.path.join(where, rng.choice(["a b", "run#3", "50%", "x;y", "q?r", "plus+"]))
                os.makedirs(d)
            w = Doc(rng, d, self.np)
            doc = []
            for i in range(rng.choice([1, 1, 1, 2, 3])):
                doc.append(w.grid(rng.choice([0, 1, 2, 2]), dict(topo=[], geo=[], top=True, rect=False), "" if rng.random() < 0.1 else "abc"[i]))
            fn = w.write(doc, rng.random() < 0.3)
            v.unload_all_files()
            f = None
            try:
                f = v.load_file(fn)
                got = ["ok", [self.show(c) for c in f.children]]
                if rng.random() < 0.15:
                    f.reload()
                    got = ["ok", [self.show(c) for c in f.children]]
            except Exception as e:
                got = ["exc", type(e).__name__, str(e)[:120]]
            self.rec.ev(op="read", doc=doc, keys=KEYS, got=got)
            v.unload_all_files()
        finally:
            shutil.rmtree(where, ignore_errors=True)


def drive(rec, tier, rng, shard, nshards, gen):
    r = Run(rec, rng)
    n = 60 if tier == "quick" else 900
    for k in range(n):
        rec.begin("p17/%d" % k)
        r.one()
