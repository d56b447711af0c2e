"""P42  simulation output shows what its files hold, and the quantities made from it"""
import os
import shutil
import struct
import tempfile
SPEC = "RunsTrace"
STATELESS = True
MC = [dict(name="steps", module="RunsMC", cfg="RunsMC.cfg"),
      dict(name="all", module="RunsMC", cfg="RunsMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 4, "thorough": 8}
KINDS = ["tab", "bin", "hst", "txt", "nda", "gkeyll", "ggcm", "fortbin", "psc"]
FAM = dict(tab="athena", bin="athena", hst="none", txt="none", nda="none", gkeyll="gkeyll", ggcm="ggcm", fortbin="ggcm", psc="psc")
ATH = ["rr", "p", "pp", "bx", "by", "bz", "vx", "vy", "vz", "mx", "my", "mz", "b", "v", "bmag", "speed", "nosuch"]
GKE = ["u%s_%s" % (a, s) for a in "xyz" for s in "ei"] + ["P%s_%s" % (a, s) for a in ("xx", "xy", "xz", "yy", "yz", "zz") for s in "ei"] + \
    ["u_e", "u_i", "b", "nosuch"]
GGC = ["T", "bx", "by", "bz", "vx", "vy", "vz", "b", "b_cc", "v", "jx", "jy", "jz", "j", "xj", "bmag", "speed", "jmag", "nosuch"]
PSC = ["bx", "by", "bz", "b", "h", "e", "j", "nosuch"]
NAMED = set(ATH[3:12] + GKE[:18] + ["T"])
H5 = ["rho_e", "rhoux_e", "rhouy_e", "rhouz_e", "e_e", "rho_i", "rhoux_i", "rhouy_i", "rhouz_i", "e_i", "Ex", "Ey", "Ez", "Bx", "By", "Bz"]
H10 = ["rho_e", "rhoux_e", "rhouy_e", "rhouz_e", "pxx_e", "pxy_e", "pxz_e", "pyy_e", "pyz_e", "pzz_e",
       "rho_i", "rhoux_i", "rhouy_i", "rhouz_i", "pxx_i", "pxy_i", "pxz_i", "pyy_i", "pyz_i", "pzz_i", "Ex", "Ey", "Ez", "Bx", "By", "Bz"]
BAD = 999999999


def whole(x, by=1):
    """a number times by, if that is a whole number"""
    y = float(x) * by
    if not abs(y) < 1e8:
        return BAD
    return int(round(y)) if abs(y - round(y)) < 1e-3 and abs(y) < 1e8 else BAD


class Run(object):
    def __init__(self, rng, kind):
        self.r, self.kind = rng, kind
        r = rng
        self.wish = "false"
        self.plane = []
        nd = dict(tab=r.choice([1, 2, 3, 3]), hst=1, txt=1, nda=r.choice([1, 2, 3]), gkeyll=r.choice([1, 2, 3, 3])).get(kind, 3)
        self.given = dict(tab="centers", bin="centers", fortbin="centers").get(kind, "nodes")
        self.at = dict(hst="node", txt="node", nda="node").get(kind, "cell")
        if kind in ("ggcm", "psc") and r.random() < 0.2:
            self.at = "node"
        self.how = ""
        names = "xyz"[:nd]
        if kind == "hst":
            names = "t"
        elif kind == "nda":
            names = r.choice(["xyz", "xyz", "zyx", "abc"])[:nd]
        self.even = False
        if kind == "gkeyll":
            self.how = r.choice(["uniform", "rectilinear"] + (["structured"] if nd == 3 else []))
            self.even = self.how == "uniform"
        if kind in ("psc", "ggcm"):
            self.even = r.random() < 0.3
        self.axes = []
        for n in names:
            m = r.choice([1, 2, 2, 3, 4])
            if self.given == "nodes":
                m += 1
            if kind == "fortbin":
                m = r.choice([2, 3, 4])
            if kind == "txt":
                m = r.choice([1, 2, 3, 5])
            x = r.randrange(-10, 6) * 4
            p = []
            d = r.choice([4, 8, 12])
            for _ in range(m):
                p.append(x)
                x += d if self.even else r.choice([4, 8, 12])
            self.axes.append(dict(n=n, given=self.given, p=p))
        self.order = "last" if kind in ("nda", "gkeyll", "txt", "hst") else "first"
        if kind == "fortbin":
            self.wish = r.choice(["false", "force", "auto", "auto_true", "auto"])
            if r.random() < 0.4:
                a = r.choice(self.axes)
                self.plane = [a["n"], r.choice(a["p"]) + r.choice([0, 1, -1])]
                if self.turned() and a["n"] in "xy":
                    self.plane[1] = -self.plane[1]
                if self.plane[1] < 0:          # such names have no sign
                    self.plane = []
        elif kind == "ggcm":
            self.wish = r.choice(["false", "force", "force", "auto", "auto_true"])
        self.names = self.some_names()
        nt = r.choice([1, 1, 2, 3]) if kind in ("tab", "bin", "gkeyll", "fortbin", "ggcm") else 1
        # multiples of 1/4, in hundredths
        ts = sorted(r.sample(range(0, 400), nt))
        self.ts = [t * 25 for t in ts]
        if kind == "fortbin":
            self.ts = [t * 100 for t in ts]
        if kind in ("hst", "txt", "nda"):
            self.ts = [0]
        self.small = kind == "tab" and nt == 1 and r.random() < 0.2
        self.steps = []
        for t in self.ts:
            self.steps.append(dict(t=t, flds=[dict(n=n, nc=nc, v=self.numbers(n, nc)) for n, nc in self.names]))

    def turned(self):
        return self.wish in ("force", "auto_true") or (self.wish == "auto" and self.kind == "fortbin")

    def dims(self):
        d = [len(a["p"]) - (1 if self.given == "nodes" and self.at == "cell" else 0) for a in self.axes]
        if self.plane:
            d["xyz".index(self.plane[0])] = 1
        return d

    def size(self):
        n = 1
        for d in self.dims():
            n *= d
        return n

    def numbers(self, n, nc):
        r = self.r
        m = self.size() * (nc or 1)
        if n in ("d", "rr") or n.startswith("rho_"):
            return [r.choice([1, 2, 4]) for _ in range(m)]
        return [16 * r.randrange(-3, 4) for _ in range(m)]

    def some_names(self):
        r, k = self.r, self.kind
        if k in ("tab", "bin"):
            self.var = r.choice(["cons", "prim"])
            c = ["d", "M1", "M2", "M3", "E", "B1", "B2", "B3"] if self.var == "cons" else ["d", "V1", "V2", "V3", "P", "B1c", "B2c", "B3c"]
            out = c[:4] + (c[4:5] if r.random() < 0.6 else []) + (c[5:] if r.random() < 0.7 else [])
            if k == "bin":
                self.scalars = r.choice([0, 0, 1, 2])
                out = out + [str(i) for i in range(len(out), len(out) + self.scalars)]
            elif r.random() < 0.3:
                out.append("extra")
            if k == "tab" and r.random() < 0.3:
                out = [n + "c" if n in ("B1", "B2", "B3") else n for n in out]
            return [(n, 0) for n in out]
        if k == "txt":
            return [("c%d" % i, 0) for i in range(1, r.choice([2, 2, 3, 4]))]
        if k == "hst":
            return [(n, 0) for n in ["dt", "mass", "x1 Mom.", "x2-KE"][:r.choice([1, 2, 4])]]
        if k == "nda":
            return [(n, 0) for n in r.sample(["psi", "Bz", "rho", "q"], r.choice([1, 2, 3]))]
        if k == "gkeyll":
            names = r.choice([["rho", "rhoux", "rhouy", "rhouz", "e"], H5, H5, H10, H10, H10 + ["phi_E", "phi_B"], ["Q0", "Q1", "Q2"]])
            return [(n, 0) for n in names]
        if k == "psc":
            out = []
            for v in "hej":
                if r.random() < 0.7:
                    out += [(v + c, 0) for c in "xyz"]
            return out or [("ne", 0)]
        out = [("rr", 0), ("pp", 0)] if r.random() < 0.8 else [("rr", 0)]
        for v in ("v", "b", "xj"):
            q = r.random()
            if k == "ggcm" and q < 0.25 and v != "xj" and self.dims() != [3, 3, 3]:
                out.append((v, 3))
            elif q < 0.85:
                out += [(v + c, 0) for c in "xyz"]
        return out


class Writer(object):
    def __init__(self, np, h5py):
        self.np, self.h5py = np, h5py

    def write(self, run, k):
        return getattr(self, "w_" + run.kind)(run, run.steps[k], k)

    @staticmethod
    def each(run):
        """for every line of a table whose first column changes fastest: positions"""
        d = run.dims()
        n = 1
        for m in d:
            n *= m
        for i in range(n):
            ix = []
            q = i
            for m in d:
                ix.append(q % m)
                q //= m
            yield i, ix

    def w_tab(self, run, st, k):
        name = "run.%04d.tab" % (3 * k)
        nd = len(run.axes)
        with open(name, "w") as f:
            for i, a in enumerate(run.axes):
                f.write("# Nx%d = %d\n# x%d-size = 1.5\n" % (i + 1, len(a["p"]), i + 1))
            t = "%g" % (st["t"] / 100.0)
            if run.small:
                t = "%.6e" % (st["t"] / 100.0)
            f.write("# %s vars at Time= %s, level= 0, domain= 0\n# " % ("CONSERVED", t))
            cols = ["%s-zone" % c for c in "ijk"[:nd]] + ["x%d" % (i + 1) for i in range(nd)] + [x["n"] for x in st["flds"]]
            f.write(" ".join("[%d]=%s" % (i + 1, c) for i, c in enumerate(cols)) + "\n")
            for i, ix in self.each(run):
                f.write(" ".join("%d" % (j + 4) for j in ix) + " ")
                f.write(" ".join("%.8e" % (a["p"][j] / 4.0) for j, a in zip(ix, run.axes)) + " ")
                f.write(" ".join("%.8e" % x["v"][i] for x in st["flds"]) + "\n")
        return name

    def w_bin(self, run, st, k):
        np = self.np
        name = "run.%04d.bin" % (3 * k)
        e, ft = run.end, run.ft
        d = run.dims()
        with open(name, "wb") as f:
            f.write(struct.pack(e + "i", -1))
            f.write(struct.pack(e + "5i", d[0], d[1], d[2], len(st["flds"]), run.scalars))
            f.write(struct.pack(e + "2i", 0, 0))
            fl = np.dtype(e + ft)
            f.write(np.array([1.6, 0.0, st["t"] / 100.0, 0.25], dtype=fl).tobytes())
            for a in run.axes:
                f.write((np.array(a["p"]) / 4.0).astype(fl).tobytes())
            for x in st["flds"]:
                f.write(np.array(x["v"]).astype(fl).tobytes())
        return name

    def w_hst(self, run, st, k):
        with open("run.hst", "w") as f:
            f.write("# Athena history dump for level=0 domain=0 volume=1.0\n")
            f.write("#   " + "   ".join("[%d]=%s" % (i + 1, c) for i, c in enumerate(["time"] + [x["n"] for x in st["flds"]])) + "\n")
            for i, p in enumerate(run.axes[0]["p"]):
                f.write("  ".join("%.5e" % q for q in [p / 4.0] + [x["v"][i] for x in st["flds"]]) + "\n")
        return "run.hst"

    def w_txt(self, run, st, k):
        with open("run.txt", "w") as f:
            for i, p in enumerate(run.axes[0]["p"]):
                f.write(" ".join("%g" % q for q in [p / 4.0] + [x["v"][i] for x in st["flds"]]) + "\n")
        return "run.txt"

    def w_nda(self, run, st, k):
        with open("run.nda", "w") as f:
            f.write("NDim: %d\nNfields: %d\n" % (len(run.axes), len(st["flds"])))
            for a in run.axes:
                f.write("%s %s\n%s\n" % (a["n"], run.r.choice(["f8", "f4"]), " ".join("%g" % (p / 4.0) for p in a["p"])))
            for x in st["flds"]:
                f.write("%s %s\n%s\n" % (x["n"], run.r.choice(["f8", "f4", "i4"]), " ".join("%d" % q for q in x["v"])))
        return "run.nda"

    def w_gkeyll(self, run, st, k):
        np = self.np
        name = "run_q_%d.h5" % (3 * k + 8)
        d = run.dims()
        with self.h5py.File(name, "w") as f:
            f["StructGridField"] = np.array([x["v"] for x in st["flds"]], dtype="f8").T.reshape(d + [len(st["flds"])])
            g = f.create_group("timeData")
            g.attrs["vsStep"] = k
            g.attrs["vsTime"] = st["t"] / 100.0
            if run.how == "structured":
                m = np.meshgrid(*[np.array(a["p"]) / 4.0 for a in run.axes], indexing="ij")
                f["StructGrid"] = np.stack(m, axis=-1)
                f["StructGrid"].attrs["vsKind"] = np.bytes_("structured")
            else:
                g = f.create_group("StructGrid")
                g.attrs["vsKind"] = np.bytes_(run.how)
                if run.how == "uniform":
                    g.attrs["vsLowerBounds"] = [a["p"][0] / 4.0 for a in run.axes]
                    g.attrs["vsUpperBounds"] = [a["p"][-1] / 4.0 for a in run.axes]
                    g.attrs["vsNumCells"] = np.array(d)
                else:
                    for i, a in enumerate(run.axes):
                        g["axis%d" % i] = np.array(a["p"]) / 4.0
        return name

    def w_ggcm(self, run, st, k):
        return self.xdmf(run, st, "run.3d.%06d.xdmf" % (10 * k + 5))

    def w_psc(self, run, st, k):
        return self.xdmf(run, st, "pfd.%06d.xdmf" % (10 * k))

    @staticmethod
    def xdmf(run, st, name):
        n = [len(a["p"]) for a in run.axes][::-1]
        d = run.dims()[::-1]
        o = ["<?xml version='1.0' ?>", "<Xdmf Version='2.0'><Domain><Grid GridType='Uniform' Name='g'><Time Value='%g'/>" % (st["t"] / 100.0)]
        if run.even:
            o.append("<Topology TopologyType='3DCoRectMesh' Dimensions='%d %d %d'/><Geometry GeometryType='Origin_DxDyDz'>" % tuple(n))
            o.append("<DataItem Name='i' Dimensions='3' Format='XML'>%s</DataItem>" % " ".join("%g" % (a["p"][0] / 4.0) for a in run.axes[::-1]))
            o.append("<DataItem Name='i' Dimensions='3' Format='XML'>%s</DataItem>" % " ".join("%g" % ((a["p"][1] - a["p"][0]) / 4.0) for a in run.axes[::-1]))
        else:
            o.append("<Topology TopologyType='3DRectMesh' Dimensions='%d %d %d'/><Geometry GeometryType='VXVYVZ'>" % tuple(n))
            for a in run.axes:
                o.append("<DataItem Name='%s' Dimensions='%d' Format='XML'>%s</DataItem>" % (a["n"], len(a["p"]), " ".join("%g" % (p / 4.0) for p in a["p"])))
        o.append("</Geometry>")
        for x in st["flds"]:
            o.append("<Attribute Name='%s' AttributeType='%s' Center='%s'>" % (x["n"], "Vector" if x["nc"] else "Scalar", run.at.title()))
            o.append("<DataItem Name='i' Dimensions='%s' Format='XML'>%s</DataItem></Attribute>"
                     % (" ".join("%d" % q for q in (d + [3] if x["nc"] else d)), " ".join("%d" % q for q in x["v"])))
        o.append("</Grid></Domain></Xdmf>\n")
        with open(name, "w") as f:
            f.write("\n".join(o))
        return name

    def w_fortbin(self, run, st, k):
        np = self.np
        fty = "p%s_%d" % (run.plane[0], int(round(run.plane[1] / 4.0 * 10))) if run.plane else "3df"
        name = "run.%s.%06d.b" % (fty, st["t"] // 100)
        with open("run.grid2", "w") as f:
            for a in run.axes:
                f.write("%d\n" % len(a["p"]) + "".join("%g\n" % (p / 4.0) for p in a["p"]))
        d = run.dims()
        with open(name, "wb") as f:
            for x in st["flds"]:
                f.write(struct.pack(run.end + "3i", 2, st["t"] // 100, 3))
                f.write(struct.pack(run.end + "3i", *d))
                f.write(x["n"].ljust(80).encode())
                f.write(("time= %g 0 1967:01:01:00:00:10.000" % (st["t"] / 100.0)).ljust(80).encode())
                f.write(np.array(x["v"]).astype(run.end + "f4").tobytes())
        return name


class Driver(object):
    def __init__(self, rec, rng):
        import h5py
        import numpy as np
        import viscid
        from viscid import field
        from viscid.readers.openggcm import GGCMGrid
        self.flat = field.LAYOUT_FLAT
        self.rec, self.r, self.np, self.viscid, self.GGCM = rec, rng, np, viscid, GGCMGrid
        self.w = Writer(np, h5py)

    def show(self, run, fld):
        np = self.np
        axes = []
        for a in fld.crds.axes:
            axes.append([str(a), [whole(x, 4) for x in fld.get_crd_nc(a)]])
        # axes in the order the run tells them
        want = [a["n"] for a in run.axes]
        have = [a for a, _ in axes]
        data = np.asarray(fld.data)
        nc = fld.nr_comps
        if nc:
            data = np.asarray(fld.as_layout(self.flat).data)
        comps = [data[c] for c in range(nc)] if nc else [data]
        if sorted(have) == sorted(want) and have != want:
            perm = [have.index(a) for a in want]
            axes = [axes[p] for p in perm]
            comps = [np.transpose(c, perm) for c in comps]
        cls = fld.iscentered
        at = "cell" if cls("cell") else "node" if cls("node") else "other"
        return dict(axes=axes, at=at, nc=nc, v=[[whole(x) for x in c.reshape(-1)] for c in comps],
                    size=[whole(round(float(x) * 100)) for x in comps[0].reshape(-1)] if len(comps) == 1 else [], n=str(fld.name))

    def session(self):
        r = self.r
        run = Run(r, r.choice(KINDS))
        while run.size() == 1 and FAM[run.kind] != "none":     # one number is no field
            run = Run(r, run.kind)
        run.end, run.ft = r.choice("<>"), r.choice(["f8", "f8", "f4"])
        d = tempfile.mkdtemp(prefix="runs.")
        os.chdir(d)
        was = self.GGCM.mhd_to_gse_on_read, self.GGCM.copy_on_transform
        # planes are asked for in tenths
        if run.plane:
            loc = run.plane[1] / 4.0 * 10
            a = [x for x in run.axes if x["n"] == run.plane[0]][0]
            turned = run.turned() and a["n"] in "xy"
            real = int(round(loc)) / 10.0 * (-1 if turned else 1)
            ds = sorted(abs(p / 4.0 - real) for p in a["p"])
            if len(ds) > 1 and ds[1] - ds[0] < 0.1:
                run.plane = []
                for st in run.steps:
                    for x in st["flds"]:
                        x["v"] = run.numbers(x["n"], x["nc"])
        try:
            files = [self.w.write(run, k) for k in range(len(run.steps))]
            self.rec.begin("run", kind=run.kind, fam=FAM[run.kind], axes=run.axes, order=run.order, at=run.at, wish=run.wish, plane=run.plane,
                           steps=run.steps)
            self.GGCM.mhd_to_gse_on_read = False if run.wish == "false" else run.wish
            self.GGCM.copy_on_transform = r.random() < 0.5
            kw = {}
            if run.kind == "bin":
                kw = dict(float_type_name=run.ft, var_type=run.var)
            try:
                self.use(run, files, kw)
            except Exception as e:     # pylint: disable=broad-except
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                self.rec.ev(op="broken", how=run.how, got=[type(e).__name__, str(e)[:100], "%s:%d" % (os.path.basename(tb[0]), tb[1])])
        finally:
            self.GGCM.mhd_to_gse_on_read, self.GGCM.copy_on_transform = was
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)

    def use(self, run, files, kw):
        r, v = self.r, self.viscid
        v.unload_all_files()
        names = list(files)
        r.shuffle(names)
        ext = files[0][files[0].rindex("."):]
        how = r.choice(["list", "wild"])
        f = v.load_files(names if how == "list" else "*" + ext, **kw)
        if len(f) != 1:
            self.rec.ev(op="broken", got=["files", str(len(f)), ""])
            return
        f = f[0]
        grids = []
        times = []
        if len(files) > 1:
            for g in f.iter_times():
                grids.append(g)
                times.append(whole(g.time, 100))
        else:
            grids = [f.get_grid()]
            times = [0 if run.kind in ("txt", "nda") else whole(grids[0].time, 100)]
        self.rec.ev(op="steps", got=times)
        if len(grids) != len(files):
            return
        self.rec.ev(op="names", got=[[str(x.name) for x in g.iter_fields()] for g in grids])
        asks = {"athena": ATH, "gkeyll": GKE, "ggcm": GGC, "psc": PSC}.get(FAM[run.kind], ["nosuch"])
        if run.kind in ("tab", "bin"):
            asks = asks
        for _ in range(8):
            k = r.randrange(len(grids))
            n = r.choice(asks) if r.random() < 0.65 else r.choice(run.names)[0]
            if run.kind == "gkeyll" and n[0] == "P" and "pxx_e" not in [x for x, _ in run.names]:
                continue
            try:
                got = ["ok", self.show(run, grids[k][n])]
            except Exception as e:     # pylint: disable=broad-except
                got = ["exc", type(e).__name__, str(e)[:90]]
            stored = n in [x for x, _ in run.names]
            self.rec.ev(op="ask", step=k + 1, n=n, how=run.how, named=(n in NAMED and not stored and FAM[run.kind] in ("athena", "gkeyll")) or stored, got=got)
        v.unload_all_files()


def drive(rec, tier, rng, shard, nshards, gen):
    d = Driver(rec, rng)
    for _ in range(160 if tier == "quick" else 500):
        d.session()
