"""P11  bucket of open files: one object per file, reload in place, shared children, unload"""
import os
import random
SPEC = "FileBucketTrace"
MC = [dict(name="fb", module="FileBucketMC", cfg="FileBucketMC.cfg", gen=True),
      dict(name="fbbig", module="FileBucketMC", cfg="FileBucketMCbig.cfg", tiers=("thorough",), workers=8)]
SHARDS = {"quick": 4, "thorough": 8}
SESS = []


def CREATED(obj):
    if SESS:
        SESS[-1].oid(obj)


KIDS = {"a": [], "b": [], "p": ["a", "b"], "q": ["a", "a"], "r": ["p"]}


def make_readers():
    """readers for two made-up formats, added the documented way (by subclassing); tree=True puts children into the
    container's own tree, as the readers of file groups do"""
    import numpy as np
    import viscid
    from viscid.readers.vfile import VFile
    from viscid.readers.vfile_bucket import ContainerFile

    def content(self):
        with open(self.fname) as f:
            lines = f.read().split()
        if lines[0] == "BAD":
            raise IOError("unreadable")
        CREATED(self)       # object numbers are given in the order in which files are opened
        return int(lines[0]), lines[1:]

    def fill(self, v):
        g = self._make_grid(self, name="g")
        crds = viscid.arrays2crds([np.arange(3.0)])
        g.set_crds(crds)
        fld = self._make_field(g, "Scalar", "v", crds, np.full((3,), float(v)), center="node", time=0.0)
        g.add_field(fld)
        g.time = 0.0
        self.add(g)
        self.activate(0)

    class FileVtst(VFile):
        _detector = r".*\.vtst$"

        def _parse(self):
            v, _ = content(self)
            self.time = float(v)
            fill(self, v)

    class FileVcont(ContainerFile):
        _detector = r".*\.vcont$"
        in_tree = False

        def _parse(self):
            v, kids = content(self)
            fill(self, v)
            if self.in_tree:
                ts = self._make_dataset(self, dset_type="temporal", name="ts")
            for k in kids:
                c = self._load_child_file(os.path.join(self.dirname, k), index_handle=False)
                if c is not None and self.in_tree:
                    ts.add(c)
            if self.in_tree:
                self.add(ts, set_active=False)
    return FileVtst, FileVcont


class Sess(object):
    def __init__(self, rec, wd, bucket, names, via):
        self.rec, self.wd, self.b, self.names, self.via = rec, wd, bucket, names, via
        self.ids, self.objs = {}, []
        self.disk = {n: 0 for n in names}
        for n in names:
            self.write(n, 0)

    def path(self, n):
        return os.path.join(self.wd, n + (".vcont" if KIDS[n] else ".vtst"))

    def spell(self, n, k):
        p = self.path(n)
        if k == 1:
            return os.path.relpath(p)
        if k == 2:
            return "$VDIR/" + os.path.basename(p)
        if k == 3:
            return "~/" + os.path.relpath(p, os.environ["HOME"])
        if k == 4:
            return p[:-len(os.path.basename(p))] + n + ".v*"
        if k == 5:
            return os.path.join(self.wd, ".", "..", os.path.basename(self.wd), os.path.basename(p))
        return p

    def write(self, n, v):
        with open(self.path(n), "w") as f:
            if v == -1:
                f.write("BAD\n")
            else:
                f.write("%d\n%s\n" % (v, "\n".join(os.path.basename(self.path(k)) for k in KIDS[n])))
        self.disk[n] = v

    def oid(self, o):
        if id(o) not in self.ids:
            self.objs.append(o)         # kept: identities must not be reused
            self.ids[id(o)] = len(self.objs)
        return self.ids[id(o)]

    def ver(self, o):
        if len(o) == 0 or not hasattr(o[0], "get_field"):
            return -9
        try:
            return int(o[0]["v"].data[1])
        except Exception:
            return -8

    def obs(self):
        ent = []
        for handles, o in self.b.items():
            name = [n for n in self.names if self.path(n) == handles[0]]
            ints = [h for h in handles if isinstance(h, int)]
            if o is None:
                ent.append(["None", 0, -1, -9])
            else:
                ent.append([name[0] if name else repr(handles[0]), self.oid(o), ints[0] if ints else -1, self.ver(o)])
        look = []
        for n in self.names:
            try:
                look.append(self.oid(self.b[self.path(n)]))
            except KeyError:
                look.append(0)
            if (self.path(n) in self.b) != (look[-1] != 0):
                look[-1] = -1
        return dict(ent=ent, look=look, names=self.names,
                    full=[i + 1 for i, o in enumerate(self.objs) if self.ver(o) != -9])

    def do(self, a):
        import viscid
        op = a[0]
        ev = dict(op=op)
        try:
            if op == "load":
                ev.update(n=a[1], spell=a[2])
                r = (viscid.load_file if self.via else self.b.load_file)(self.spell(a[1], a[2]))
                ev["res"] = ["none"] if r is None else ["obj", self.oid(r)]
            elif op == "loadmany":
                ev.update(ns=a[1])
                r = (viscid.load_files if self.via else self.b.load_files)([self.path(n) for n in a[1]])
                ev["res"] = ["objs", [0 if o is None else self.oid(o) for o in r]]
            elif op == "force":
                ev.update(n=a[1], spell=a[2])
                r = (viscid.load_file if self.via else self.b.load_file)(self.spell(a[1], a[2]), force_reload=True)
                ev["res"] = ["none"] if r is None else ["obj", self.oid(r)]
            elif op == "hold":
                ev.update(n=a[1], spell=a[2], force=a[3])
                r = self.b.load_files(self.spell(a[1], a[2]), force_reload=a[3], _add_ref=True)
                ev["res"] = ["obj", self.oid(r[0])] if r else ["none"]
            elif op == "get":
                ev.update(i=a[1])
                try:
                    r = viscid.get_file(a[1]) if self.via else self.b[a[1]]
                    ev["res"] = ["obj", self.oid(r)]
                except KeyError:
                    ev["res"] = ["none"]
            else:
                if op == "reload":
                    ev.update(n=a[1])
                    viscid.reload_file(self.path(a[1])) if self.via else self.b[self.path(a[1])].reload()
                elif op == "unload":
                    ev.update(n=a[1], how=a[2])
                    if a[2] == 0 and self.via:
                        viscid.unload_file(self.path(a[1]))
                    elif a[2] == 1:
                        with self.b[self.path(a[1])]:
                            pass
                    else:
                        self.b[self.path(a[1])].unload()
                elif op == "del":
                    ev.update(n=a[1], how=a[2])
                    if a[2] == 0:
                        del self.b[self.path(a[1])]
                    elif a[2] == 1:
                        self.b.remove_item(self.b[self.path(a[1])])
                    else:
                        self.b.remove_item_by_handle(self.path(a[1]))
                elif op == "all":
                    viscid.unload_all_files() if self.via else self.b.remove_all_items()
                elif op == "write":
                    ev.update(n=a[1], v=a[2])
                    self.write(a[1], a[2])
                ev["res"] = ["ok"]
        except Exception as e:
            ev["res"] = ["exc", type(e).__name__]
        try:
            ev["obs"] = self.obs()
        except Exception as e:
            ev["obs"] = dict(ent=[["observing failed " + type(e).__name__, 0, 0, 0]], look=[], names=self.names, full=[])
        self.rec.ev(**ev)


def concrete(a, sess, rng):
    """model action -> real action"""
    op = a[0]
    if op == "load":
        return ["load", a[1], rng.randrange(6)]
    if op == "force":
        return ["force", a[1], rng.choice([0, 1, 2])] if rng.random() < 0.5 else ["reload", a[1]]
    if op == "hold":
        return ["hold", a[1], rng.randrange(6), True]
    if op == "unload":
        return ["unload", a[1], rng.randrange(3)]
    if op == "del":
        return ["del", a[1], rng.randrange(3)]
    if op == "all":
        return ["all"]
    if op == "write":
        return ["write", a[1], sess.disk[a[1]] + 1]
    if op == "break":
        return ["write", a[1], 0 if sess.disk[a[1]] == -1 else -1]


def drive(rec, tier, rng, shard, nshards, gen):
    import viscid
    import vharness
    from viscid.readers.vfile_bucket import VFileBucket
    FileVtst, FileVcont = make_readers()
    names4 = ["a", "b", "p", "q"]
    os.environ["HOME"] = os.path.abspath("home")
    os.makedirs("home", exist_ok=True)
    count = [0]

    def begin(name, names, tree, via):
        FileVcont.in_tree = tree
        wd = os.path.abspath("home/s%d" % count[0])
        count[0] += 1
        os.makedirs(wd)
        os.environ["VDIR"] = wd
        rec.begin(name, names=names, kids={n: KIDS[n] for n in names}, disk={n: 0 for n in names}, tree=tree, via=via)
        if via:
            # the module wide bucket: a fresh one for each session (index handles start at 0)
            viscid.readers.__filebucket__ = VFileBucket()
            b = viscid.readers.__filebucket__
        else:
            b = VFileBucket()
        SESS[:] = [Sess(rec, wd, b, names, via)]
        return SESS[-1]

    cap = 900 if tier == "quick" else 20000
    for n, seq in enumerate(vharness.tours(gen["fb"], random.Random(rng.random()), max_events=cap, maxlen=30)):
        s = begin("tour/%d" % n, names4, bool(n % 2), bool(n // 2 % 2))
        for a in seq:
            s.do(concrete(a, s, rng))
    names5 = names4 + ["r"]
    for n in range(14 if tier == "quick" else 150):
        s = begin("random/%d" % n, names5, bool(n % 2), rng.random() < 0.5)
        for _ in range(35):
            live = [x for x in names5 if s.path(x) in s.b]
            r = rng.random()

            def deep(x):
                return s.disk[x] != -1 and all(deep(k) for k in KIDS[x])
            if r < 0.35 or not live:
                a = ["load", rng.choice(names5), rng.randrange(6)]
            elif r < 0.42:
                a = ["loadmany", rng.sample(["a", "b"], 2) if rng.random() < 0.5 else rng.sample(["p", "q", "r"], 2)]
            elif r < 0.47:
                x = rng.choice(names5)
                a = ["hold", x, rng.randrange(6), deep(x) and rng.random() < 0.5]
            elif r < 0.55:
                x = rng.choice(live)
                if not deep(x):
                    continue
                a = rng.choice([["force", x, rng.randrange(6)], ["reload", x]])
            elif r < 0.75:
                a = ["unload", rng.choice(live), rng.randrange(3)]
            elif r < 0.8:
                a = ["del", rng.choice(live), rng.randrange(3)]
            elif r < 0.84:
                a = ["all"]
            elif r < 0.9:
                a = ["get", rng.randrange(6)]
            else:
                x = rng.choice(names5)
                v = s.disk[x]
                a = ["write", x, 0 if v == -1 else (v + 1 if rng.random() < 0.7 else -1)]
            s.do(a)
    FileVcont.in_tree = False
