"""P16  names with wildcards and slices mean the files they say; kind and grouping follow the name"""
import os
import shutil
import tempfile
SPEC = "FileNamesTrace"
STATELESS = True
MC = [dict(name="names", module="FileNamesMC", cfg="FileNamesMC.cfg"),
      dict(name="all", module="FileNamesMC", cfg="FileNamesMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 4, "thorough": 8}
XDMF = """<?xml version='1.0' ?>
<Xdmf Version='2.0'><Domain><Grid GridType="Uniform" Name="g"><Time Value="%d"/>
<Topology TopologyType="3DCoRectMesh" Dimensions="3 3 3"/>
<Geometry GeometryType="Origin_DxDyDz"><DataItem Dimensions="3" Format="XML">0 0 0</DataItem>
<DataItem Dimensions="3" Format="XML">1 1 1</DataItem></Geometry>
<Attribute Name="v" AttributeType="Scalar" Center="Cell"><DataItem Dimensions="2 2 2" Format="XML">%s</DataItem>
</Attribute></Grid></Domain></Xdmf>
"""
GGCM = ["3d", "3df", "px_0", "py_12", "pz_0"]
WISH = ["none", "xdmf", "HDF5", "athena", "gkeyll", "psc", "nosuch"]


def codes(t):
    return [ord(c) for c in t]


class Part(object):
    """a name by its parts"""
    def __init__(self, run, kind, digits, ext, gk=False):
        self.run, self.kind, self.digits, self.ext, self.gk = run, kind, digits, ext, gk
        if gk:
            self.text = "%s_q_%s.h5" % (run, digits)
        else:
            self.text = ".".join(x for x in (run, kind, digits, ext) if x)

    def rec(self, **kw):
        return dict(run=self.run, kind=self.kind, nd=len(self.digits), ext=self.ext, gk=self.gk,
                    fd=self.run.endswith("fd") and not self.kind, **kw)


def some_part(r):
    kind = r.choice(["", "", "iof", "mp_info", "topo"] + GGCM)
    nd = r.choice([0, 0, 4, 4, 6, 6, 6, 1, 5, 7])
    digits = "".join(r.choice("0123456789") for _ in range(nd))
    run = r.choice(["r", "run_1", "a.b", "pfd", "tfd", "fd", "r-2", "R3df", "iof"])
    if r.random() < 0.1:
        return Part(run, "", digits or "3", "h5", gk=True)
    ext = r.choice(["xdmf", "xdmf", "xdmf", "xmf", "ath.xdmf", "h5", "npz", "txt", "asc", "nda", "vpc", "tab", "tab", "bin", "hst", "", "", "b",
                    "zip", "dat", "xdm"])
    return Part(run, kind, digits, ext)


# ------------------------------------------------------------------ patterns
def literal(t):
    return [[ord(c)] for c in t]


def loosen(r, t):
    """elements of a pattern which matches t, and maybe other names"""
    out = []
    k = 0
    while k < len(t):
        q = r.random()
        if q < 0.12:
            out.append([-1])
            k += r.randrange(0, 4)
        elif q < 0.22:
            out.append([-2])
            k += 1
        elif q < 0.27 and t[k].isalpha():
            out.append(sorted({ord(t[k]), ord("x"), ord("q")}))
            k += 1
        else:
            out.append([ord(t[k]) if r.random() > 0.004 else ord("Z")])
            k += 1
    return out


def text_of(elems):
    return "".join("*" if e == [-1] else "?" if e == [-2] else chr(e[0]) if len(e) == 1 else "[%s]" % "".join(chr(c) for c in e)
                   for e in elems)


def num_text(r, h):
    """a number of hundredths as text"""
    s = "-" if h < 0 else ""
    a, b = divmod(abs(h), 100)
    if b == 0:
        return s + r.choice(["%d", "%d.0"]) % a
    t = "%d.%02d" % (a, b)
    return s + (t[:-1] if t.endswith("0") else t)


def val_text(r, h):
    if h >= 0 and h % 100 == 0 and h < 6000 and r.random() < 0.1:
        return "T00:00:%02d" % (h // 100)
    return num_text(r, h) + r.choice(["j", "J"])


def some_sel(r, values):
    """(tuple, text) of a slice"""
    n = len(values)

    def loc():
        v = r.choice(values) if values else 100
        return v + r.choice([0, 0, 0, 50, -50, 25, 1000, -1000])
    q = r.random()
    if q < 0.12:
        k = r.randrange(-n - 1, n + 2)
        return ["i", k], "%d" % k
    if q < 0.22:
        v = loc()
        return ["v", v], num_text(r, v) + "j"

    def end():
        p = r.random()
        if p < 0.35:
            return ["n"], ""
        if p < 0.65:
            k = r.randrange(-n - 1, n + 2)
            return ["i", k], "%d" % k
        v = loc()
        return ["v", v], val_text(r, v)
    lo, lt = end()
    hi, ht = end()
    step = r.choice([1, 1, 1, 2, 2, 3, -1, -2])
    t = lt + ":" + ht
    if step != 1 or r.random() < 0.15:
        t += ":%d" % step
    elif r.random() < 0.1:
        t += ":"
    return ["s", lo, hi, step], t


def answer(fn, names):
    try:
        got = fn()
        return ["ok", [names.index(os.path.basename(g)) + 1 for g in got]]
    except Exception as e:     # pylint: disable=broad-except
        return ["exc", type(e).__name__, str(e)[:60]]


def where_text(r, d, text):
    """the same pattern, told in one of several ways"""
    q = r.random()
    if q < 0.4:
        return os.path.join(d, text)
    if q < 0.6:
        return text
    if q < 0.7:
        return "./" + text
    if q < 0.8:
        return "../%s/%s" % (os.path.basename(d), text)
    return r.choice(["$VISCID_NAMES/", "${VISCID_NAMES}/"]) + text


class Driver(object):
    def __init__(self, rec, rng):
        import viscid
        from viscid import vutil
        from viscid.readers.vfile import VFile, serialize_subclasses
        from viscid.readers.vfile_bucket import VFileBucket
        self.rec, self.r = rec, rng
        self.vutil, self.VFile, self.Bucket, self.kinds = vutil, VFile, VFileBucket, serialize_subclasses

    def folder(self):
        d = tempfile.mkdtemp(prefix="names.")
        os.environ["VISCID_NAMES"] = d
        os.chdir(d)
        return d

    # ------------------------------------------------------------------ pick
    def pick_session(self):
        r = self.r
        d = self.folder()
        try:
            stems = r.sample(["file.", "file_", "f", "run1.3d.", "x-", "fig", "k[1]_"][:6], r.choice([1, 1, 2, 3]))
            ends = r.sample([".txt", ".xdmf", "", "_x.h5", ".tar.gz", "b"], r.choice([1, 1, 2]))
            names = {}
            for _ in range(r.choice([0, 3, 5, 7, 9, 12])):
                h = r.choice([r.randrange(0, 40) * 100, r.randrange(0, 40) * 1000, r.randrange(-8, 30) * 25])
                q = r.random()
                if h % 100 == 0 and h >= 0:
                    num = r.choice(["%d", "%03d", "%03d", "%06d"]) % (h // 100)
                else:
                    num = num_text(r, h)
                if q < 0.12:
                    num, h = r.choice(["abc", "x1", "1x", "1.2.3", "-", "STAR", "."]), None
                names[r.choice(stems) + num + r.choice(ends)] = h
            todo = sorted(names)
            r.shuffle(todo)
            for n in todo:
                open(n, "w").close()
            self.rec.begin("pick", names=[codes(n) for n in todo], types=[], files=[])
            vals = sorted(h for h in names.values() if h is not None)
            for _ in range(14):
                self.pick(d, todo, stems, ends, vals)
        finally:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)

    def pick(self, d, names, stems, ends, vals):
        r = self.r
        gentle = r.random() < 0.3
        fn = self.vutil.glob2 if gentle else self.vutil.slice_globbed_filenames
        if r.random() < 0.3 or not names:
            base = r.choice(names) if names else "file.1.txt"
            pre = loosen(r, base) if r.random() < 0.8 else literal(base)
            pat = dict(pre=pre, suf=[], sel=[])
            text = text_of(pre)
        else:
            pre, suf = literal(r.choice(stems)), literal(r.choice(ends))
            if r.random() < 0.4:
                pre = loosen(r, r.choice(stems))
            if r.random() < 0.3:
                suf = loosen(r, r.choice(ends))
            sel, st = some_sel(r, vals)
            pat = dict(pre=pre, suf=suf, sel=sel)
            text = text_of(pre) + "[" + st + "]" + text_of(suf)
        got = answer(lambda: fn(where_text(r, d, text)), names)
        self.rec.ev(op="pick", pat=pat, text=text, gentle=gentle, got=got)

    # ------------------------------------------------------------------ type
    def type_session(self):
        r = self.r
        types = []
        for k in self.kinds(self.VFile):
            if k._detector:
                types.append(dict(n=k.__name__, c=codes(plain(k.__name__))))
        self.rec.begin("type", names=[], types=types, files=[])
        for _ in range(40):
            n = some_part(r)
            wish = r.choice(WISH + ["none"] * 4)
            text = r.choice(["", "/a/b/", "/data.3d.xdmf/", "../"]) + n.text
            try:
                k = self.VFile.detect_type(text, prefer=None if wish == "none" else wish)
                got = k.__name__ if k else "none"
            except Exception as e:     # pylint: disable=broad-except
                got = "exc " + type(e).__name__
            self.rec.ev(op="type", text=text, n=n.rec(), wish=wish, got=got)
        for _ in range(12):
            t = r.choice(types)["n"]
            q = r.random()
            if q < 0.6:
                text = r.choice([t, t.lower(), t.upper(), t.replace("File", ""), t.replace("File", "_File_"), t.replace("File", "-")])
            elif q < 0.85:
                p = plain(t)
                a = r.randrange(len(p))
                text = p[a:a + r.randrange(2, 6)]
            else:
                text = r.choice(["nosuch", "xyz", "iono xdmf", "tab", "jrrle"])
            try:
                k = self.VFile.resolve_type(text)
                got = k.__name__ if k else "none"
            except Exception as e:     # pylint: disable=broad-except
                got = "exc " + type(e).__name__
            every = [k for k in self.kinds(self.VFile)]
            if got not in [x["n"] for x in types] and got in [k.__name__ for k in every]:
                continue                      # an abstract kind, by part of its name
            self.rec.ev(op="byname", shown=text, text=codes(plain(text)), got=got)

    # ------------------------------------------------------------------ open
    def write(self, n, t, mark):
        if n.ext == "tab":
            with open(n.text, "w") as f:
                f.write("# Nx1 = 2\n# Nx2 = 1\n# Nx3 = 1\n# Time = %d\n# [1]=i [2]=j [3]=k [4]=x1 [5]=x2 [6]=x3 [7]=v\n" % t)
                for i in range(2):
                    f.write("%d 0 0 %g 0.5 0.5 %d\n" % (i, i + 0.5, mark))
        elif n.ext == "txt":
            with open(n.text, "w") as f:
                f.write("0 %d\n1 %d\n" % (mark, mark))
        elif n.ext in ("xdmf", "xmf", "ath.xdmf"):
            with open(n.text, "w") as f:
                f.write(XDMF % (t, " ".join([str(mark)] * 8)))
        else:
            open(n.text, "w").close()

    def open_session(self):
        r = self.r
        d = self.folder()
        try:
            parts, files = [], []
            order = r.choice(["same", "same", "back", "mixed"])
            for _ in range(r.choice([1, 2, 3])):
                run = r.choice(["r", "s", "pfd", "a.b"])
                ext, kind, nd = r.choice([("xdmf", "3d", 6), ("xdmf", "3d", 6), ("xdmf", "px_0", 6), ("xmf", "3df", 6), ("xdmf", "iof", 6),
                                          ("xdmf", "topo", 6), ("ath.xdmf", "", 3), ("ath.xdmf", "", 4), ("tab", "", 4), ("xdmf", "", 3),
                                          ("xdmf", "", 6), ("txt", "", 2), ("xdmf", "3d", 4)])
                ks = r.sample(range(1, 90), r.choice([1, 2, 3, 5]))
                for k in ks:
                    parts.append(Part(run, kind, "%0*d" % (nd, k), ext))
                if r.random() < 0.3 and ext != "tab":
                    parts.append(Part(run, kind, "", ext))
            if r.random() < 0.1:
                parts.append(Part("r", "", "000", "zip"))
            uniq = {}
            for n in parts:
                uniq[n.text] = n
            parts = list(uniq.values())
            r.shuffle(parts)
            ts = r.sample(range(1, 200), len(parts))
            if order != "mixed":
                ts.sort(reverse=order == "back")
                rank = sorted(range(len(parts)), key=lambda i: int(parts[i].digits or 0))
                tt = dict(zip(rank, ts))
                ts = [tt[i] for i in range(len(parts))]
            for i, n in enumerate(parts):
                t = 0 if n.ext == "txt" else ts[i]
                files.append(n.rec(t=t, mark=i + 1, num=int(n.digits or 0)))
                self.write(n, t, i + 1)
            names = [n.text for n in parts]
            self.rec.begin("open", names=[codes(n) for n in names], types=[], files=files)
            bucket = self.Bucket()
            for _ in range(6):
                self.open(d, bucket, parts)
        finally:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)

    def open(self, d, bucket, parts):
        r = self.r
        pats, texts = [], []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            n = r.choice(parts)
            q = r.random()
            if q < 0.2 or not n.digits:
                pre = literal(n.text)
                pats.append(dict(pre=pre, suf=[], sel=[]))
                texts.append(text_of(pre))
                continue
            stem = n.text[:n.text.index("." + n.digits) + 1] if "." + n.digits in n.text else n.text
            end = n.text[len(stem) + len(n.digits):]
            if q < 0.5:
                pre = literal(stem) + [[-1]] + literal(end) if r.random() < 0.6 else loosen(r, n.text)
                pats.append(dict(pre=pre, suf=[], sel=[]))
                texts.append(text_of(pre))
            else:
                same = sorted(100 * int(m.digits) for m in parts if m.digits and m.kind == n.kind and m.run == n.run and m.ext == n.ext)
                sel, st = some_sel(r, same)
                pats.append(dict(pre=literal(stem), suf=literal(end), sel=sel))
                texts.append(stem + "[" + st + "]" + end)
        ft = "auto"
        if r.random() < 0.1 and all(n.ext.endswith("xdmf") or n.ext == "xmf" for n in parts):
            ft = "FileXDMF"
        if ft != "auto":
            bucket = self.Bucket()
        where = [where_text(r, d, t) for t in texts]
        try:
            fs = bucket.load_files(where if len(where) > 1 or r.random() < 0.5 else where[0],
                                   **({} if ft == "auto" else {"file_type": ft}))
            got = []
            for f in fs:
                steps = []
                for g in f.iter_times():
                    txt = type(f).__name__ == "FileASCII"
                    fld = g["c1" if txt else "v"]
                    steps.append([0 if txt else int(round(g.time)), int(fld.data.flat[0])])
                got.append([type(f).__name__, steps])
            got = ["ok", got]
            if r.random() < 0.2:
                bucket.remove_all_items()
        except Exception as e:     # pylint: disable=broad-except
            got = ["exc", type(e).__name__, str(e)[:60]]
        self.rec.ev(op="open", pats=pats, text=texts, ft=ft, got=got)


def plain(t):
    t = t.replace(" ", "").replace("_", "").replace("-", "").lower()
    k = t.find("file")
    return t[:k] + t[k + 4:] if k >= 0 else t


def drive(rec, tier, rng, shard, nshards, gen):
    d = Driver(rec, rng)
    n = 80 if tier == "quick" else 240
    for _ in range(n):
        d.pick_session()
        d.open_session()
        if rng.random() < 0.4:
            d.type_session()
