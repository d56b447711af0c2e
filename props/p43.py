"""P43  a settings file sets what it says, comments and all"""
import os
import shutil
import sys
import tempfile
SPEC = "SettingsTrace"
MC = [dict(name="texts", module="SettingsMC", cfg="SettingsMC.cfg"),
      dict(name="long", module="SettingsMC", cfg="SettingsMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 4, "thorough": 8}
KNOWN = ["readers.openggcm.GGCMGrid.copy_on_transform", "readers.openggcm.GGCMGrid.mhd_to_gse_on_read",
         "readers.ggcm_xdmf.GGCMFileXDMF.assume_mhd_crds", "readers.openggcm.GGCMFile.read_log_file",
         "readers.athena_bin.AthenaBinFile.float_type_name", "grid.Grid.longterm_field_caches"]
FRESH = ["grid.Grid.brand_new", "readers.psc.some_switch"]
NOSUCH = ["no.such.thing", "grid.NoClass.x", "readers.nowhere.y", "grid.Grid.longterm_field_caches.deeper.still"]
WORDS = ["a", "it's", "x,]", "{,}", "http://v.org", "#1", "q\"q", "back\\", "//", "", "],", "tab\there", "1", "true", "'", "''", "#\"//"]


def codes(t):
    return [ord(c) for c in t]


def tag(v):
    if v is None:
        return ["w", codes("null")]
    if isinstance(v, bool):
        return ["w", codes("true" if v else "false")]
    if isinstance(v, int):
        return ["w", codes(str(v))]
    if isinstance(v, (list, tuple)):
        return ["l", [tag(x) for x in v]]
    if isinstance(v, dict):
        return ["d", [[codes(k), tag(x)] for k, x in v.items()]]
    if isinstance(v, str):
        return ["s", codes(v)]
    return ["other", codes(type(v).__name__)]


class Scribe(object):
    def __init__(self, r, plain=False):
        self.r, self.plain = r, plain

    def gap(self):
        r = self.r
        if self.plain or r.random() < 0.5:
            return r.choice(["", "", " "])
        return r.choice(["\n", "  \n ", "\t", " # it's\n", "// \"a\n", "#\n", " // ,]\n", "# \" }\n", "//\n\n", " #//#\n"])

    def string(self, s):
        out = '"'
        for c in s:
            if c in '"\\' or (c == "/" and self.r.random() < 0.3):
                out += "\\" + c
            else:
                out += {"\t": "\\t", "\n": "\\n"}.get(c, c)
        return out + '"'

    def tree(self, depth):
        r = self.r
        q = r.random()
        if depth > 0 and q < 0.3:
            return [self.tree(depth - 1) for _ in range(r.choice([0, 1, 2, 3]))]
        if depth > 0 and q < 0.6:
            return [(r.choice(WORDS[:8]), self.tree(depth - 1)) for _ in range(r.choice([0, 1, 2, 3]))] or {}
        return r.choice([True, False, None, 0, 7, -12, 100] + [r.choice(WORDS)] * 6)

    def text(self, v):
        r, g = self.r, self.gap
        if isinstance(v, list) and v and isinstance(v[0], tuple):
            return self.pairs(v)
        if v == {} and isinstance(v, dict):
            return "{" + g() + "}"
        if isinstance(v, list):
            items = [self.text(x) for x in v]
            t = "," if items and not self.plain and r.random() < 0.4 else ""
            return "[" + g() + (g() + "," + g()).join(items) + g() + t + g() + "]"
        if isinstance(v, str):
            return self.string(v)
        return {True: "true", False: "false", None: "null"}[v] if v is None or isinstance(v, bool) else str(v)

    def pairs(self, v):
        r, g = self.r, self.gap
        items = [self.string(k) + g() + ":" + g() + self.text(x) for k, x in v]
        t = "," if items and not self.plain and r.random() < 0.4 else ""
        return "{" + g() + (g() + "," + g()).join(items) + g() + t + g() + "}"

    def spoil(self, t):
        r = self.r
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(len(t) + 1)
            t = t[:k] + r.choice(["", "", ",", "]", "}", '"', "#", "/", "//", "\n", "1", " ", ":"]) + t[k + r.choice([0, 1]):]
        return t


class Driver(object):
    def __init__(self, rec, rng):
        import logging
        import viscid
        from viscid import vjson, _rc
        import viscid.readers.psc, viscid.readers.athena_bin    # pylint: disable=multiple-imports,unused-import
        self.rec, self.r, self.v, self.j, self.rc = rec, rng, viscid, vjson, _rc
        viscid.logger.setLevel(logging.CRITICAL)
        logging.disable(logging.CRITICAL)
        self.d = tempfile.mkdtemp(prefix="settings.")
        self.raw = {p: self.at(p) for p in KNOWN}

    def owner(self, p):
        o = self.v
        for x in p.split(".")[:-1]:
            o = getattr(o, x)
        return o

    def at(self, p):
        return getattr(self.owner(p), p.split(".")[-1])

    def now(self):
        out = []
        for p in KNOWN:
            out.append([codes(p), tag(self.at(p))])
        for p in FRESH:
            o, a = self.owner(p), p.split(".")[-1]
            out.append([codes(p), tag(getattr(o, a)) if hasattr(o, a) else []])
        return out

    def restore(self):
        for p in KNOWN:
            setattr(self.owner(p), p.split(".")[-1], self.raw[p])
        for p in FRESH:
            o, a = self.owner(p), p.split(".")[-1]
            if hasattr(o, a):
                delattr(o, a)

    def texts(self):
        r = self.r
        self.rec.begin("text", set=[])
        for _ in range(6):
            w = Scribe(r)
            v = w.tree(3)
            t = w.gap() + w.text(v) + w.gap()
            if r.random() < 0.3:
                t = w.spoil(t)
            try:
                x = self.j.loads(t)
                got = ["ok", tag(x)]
            except Exception as e:     # pylint: disable=broad-except
                got = ["exc", type(e).__name__]
                x = None
            self.rec.ev(op="loads", text=codes(t), shown=t, got=got)
            if got[0] == "ok":
                try:
                    if r.random() < 0.5:
                        y = self.j.loads(self.j.dumps(x, indent=r.choice([None, 2])))
                    else:
                        n = os.path.join(self.d, "a.json")
                        with open(n, "w") as f:
                            self.j.dump(x, f)
                        with open(n) as f:
                            y = self.j.load(f)
                    got2 = ["ok", tag(y)]
                except Exception as e:     # pylint: disable=broad-except
                    got2 = ["exc", type(e).__name__]
                self.rec.ev(op="again", v=got[1], got=got2)
        for _ in range(6):
            t = "".join(r.choice("ab/") for _ in range(r.randrange(0, 12)))
            subs = r.choice([["ab"], ["a"], ["a", "//"], ["//", "b"], ["ab", "ba"], ["aa"], ["aba", "b"]])
            i = r.choice([0, 0, 1, 3])
            n = r.choice([None, None, len(t), max(0, len(t) - 2)])
            back = r.random() < 0.5
            arg = subs[0] if len(subs) == 1 and r.random() < 0.5 else r.choice([list, tuple])(subs)
            try:
                got = list((self.j.rfind_all if back else self.j.find_all)(t, arg, i, n))
            except Exception as e:     # pylint: disable=broad-except
                got = ["exc", type(e).__name__]
            self.rec.ev(op="find", text=codes(t), subs=[codes(x) for x in subs], i=i + 1, n=len(t) if n is None else n, back=back, got=got)

    def loads(self):
        r = self.r
        self.restore()
        self.rec.begin("files", set=self.now())
        for _ in range(5):
            mode = r.choice(["json", "json", "yaml"])
            w = Scribe(r, plain=mode == "yaml")
            pairs = [(r.choice(KNOWN + KNOWN + FRESH + NOSUCH), w.tree(1)) for _ in range(r.choice([0, 1, 2, 3, 5]))]
            n = os.path.join(self.d, "rc%d" % r.randrange(3))
            missing = r.random() < 0.1
            told = []
            if mode == "json":
                t = w.gap() + (w.pairs(pairs) if pairs else "{}") + w.gap()
                if r.random() < 0.2:
                    t = t + r.choice(["}", ",", "\n]", "x", '"'])
            else:
                t = r.choice(["", "# a file\n", "\n# it's // one\n"])
                done = {}
                for k, v in pairs:
                    t += "%s: %s%s\n" % (k, w.text(v), r.choice(["", "", "  # why not, '", "\n"]))
                    done[k] = v
                for k, v in done.items():
                    told.append([codes(k), tag(self.plainly(v))])
            if missing:
                if os.path.exists(n):
                    os.unlink(n)
            else:
                with open(n, "w") as f:
                    f.write(t)
            if r.random() < 0.3:
                os.environ["RC_HOME_"] = self.d
                n = "$RC_HOME_/" + os.path.basename(n)
            was = sys.modules.get("yaml", self)
            if mode == "json":
                sys.modules["yaml"] = None
            elif sys.modules.get("yaml", self) is None:
                del sys.modules["yaml"]
            err = sys.stderr
            try:
                with open(os.devnull, "w") as quiet:
                    sys.stderr = quiet
                    self.rc.load_rc_file(n)
                got = ["ok"]
            except Exception as e:     # pylint: disable=broad-except
                got = ["exc", type(e).__name__, str(e)[-60:]]
            finally:
                sys.stderr = err
                if was is self:
                    if sys.modules.get("yaml", self) is None:
                        del sys.modules["yaml"]
                else:
                    sys.modules["yaml"] = was
            self.rec.ev(op="load", mode=mode, text=codes(t), shown=t, pairs=told, missing=missing, got=got, now=self.now())
        self.restore()

    def plainly(self, v):
        """the value of a tree"""
        if isinstance(v, list) and v and isinstance(v[0], tuple):
            return {k: self.plainly(x) for k, x in v}
        if isinstance(v, list):
            return [self.plainly(x) for x in v]
        return v


def drive(rec, tier, rng, shard, nshards, gen):
    d = Driver(rec, rng)
    try:
        for k in range(60 if tier == "quick" else 500):
            if k % 2:
                d.loads()
            else:
                d.texts()
    finally:
        shutil.rmtree(d.d, ignore_errors=True)
