"""P12  temporal datasets"""
import datetime
import random
SPEC = "TemporalTrace"
MC = [dict(name="t", module="TemporalMC", cfg="TemporalMC.cfg", gen=True, tiers=("quick",)),
      dict(name="t", module="TemporalMC", cfg="TemporalMCbig.cfg", gen=True, tiers=("thorough",))]
SHARDS = {"quick": 6, "thorough": 8}
U = 0.25
BASE = "2010-06-30T23:59:50"
import p20
import selcommon as S


class TimeAx(object):
    """spellings of times; dates only where the dataset knows its basetime"""
    unit = U

    def __init__(self, dates):
        self.dates = dates

    def ms(self, x):
        return int(x * 250)

    def clock(self, x, rng):
        ms = self.ms(x)
        s, ms = divmod(ms, 1000)
        return "T%02d:%02d:%02d.%03d" % (s // 3600, s % 3600 // 60, s % 60, ms)

    def date(self, x):
        import numpy as np
        return np.datetime64(BASE + ".000") + np.timedelta64(self.ms(x), "ms")

    def text(self, x, rng):
        o = ["%rj" % (x * U), "%rf" % (x * U), "%eJ" % (x * U)]
        if x >= 0:
            o.append(self.clock(x, rng))
        if self.dates:
            o += ["UT" + str(self.date(x)), "T" + str(self.date(x))]
        return rng.choice(o)

    def values(self, x, rng):
        import numpy as np
        o = [1j * x * U, np.complex64(1j * x * U), "%rj" % (x * U), "%rf" % (x * U),
             np.timedelta64(self.ms(x), "ms"), datetime.timedelta(milliseconds=self.ms(x))]
        if x >= 0:
            o.append(self.clock(x, rng))
        if self.dates:
            d = self.date(x)
            o += [d, d.astype("M8[us]").item(), "UT" + str(d)]
        return rng.choice(o)


class Rig(object):
    def __init__(self, rec, rng, name, dates, typ=None):
        import viscid
        self.v, self.rec, self.rng = viscid, rec, rng
        self.dates = dates
        self.ax = TimeAx(dates)
        self.top = viscid.dataset.Dataset()
        if dates:
            self.top.basetime = BASE
        self.tds = {}
        self.kids = {}
        self.acts = {}
        self.topact = ""
        self.nid = 0
        rec.begin(name)

    def grid(self, t, gid):
        import numpy as np
        v = self.v
        g = v.grid.Grid(name="g%d" % gid, time=None if t is None else t * U)
        c = v.arrays2crds([np.array([0.0, 1.0])])
        g.add_field(v.wrap_field(np.array([float(gid), float(gid)]), c, name="f"))
        g.add_field(v.wrap_field(np.array([-float(gid), float(gid)]), c, name="h"))
        return g

    def gid(self, g):
        if g is None:
            return 0
        if isinstance(g, self.v.dataset.DeferredChild):
            return g.callback_args[1]
        return int(g.name[1:])

    def obs(self):
        out = []
        for td in self.top.children:
            out.append(dict(name=td.name, act=self.gid(td.active_child) if td.children else 0,
                            kids=[[self.num(t), self.gid(c)] for t, c in td.children]))
        a = self.top.active_child
        return dict(top=a.name if a is not None else "", tds=out)

    def num(self, t):
        v = float(t) / U
        return int(round(v)) if abs(v - round(v)) < 1e-6 else 9999999

    def ev(self, op, fn, **kw):
        try:
            r = fn()
            got = ["ok"] if r is None else ["ok", r]
        except Exception as e:
            got = ["exc", type(e).__name__, str(e)[:120]]
        self.rec.ev(op=op, got=got, obs=self.obs(), **kw)
        return got

    # ---- calls
    def newtd(self, sa=True):
        n = "td%d" % len(self.tds)
        td = self.v.dataset.DatasetTemporal(name=n)
        self.tds[n] = td
        self.kids[n] = []
        if sa:
            self.topact = n
        self.ev("newtd", lambda: self.top.add(td, set_active=sa), td=n, sa=sa)
        return n

    def add(self, n, t, sa, kind=None):
        self.nid += 1
        gid = self.nid
        td = self.tds[n]
        kind = kind or self.rng.choice(["grid", "grid", "deferred", "notime", "date"])
        if kind == "notime" and t != 0 or kind == "date" and not self.dates:
            kind = "grid"
        if kind == "deferred":
            fn = lambda: td.add_deferred(t * U, self.grid, callback_args=(t, gid), set_active=sa)
        elif kind == "notime":
            fn = lambda: td.add(self.grid(None, gid), set_active=sa)
        else:
            fn = lambda: td.add(self.grid(t, gid), set_active=sa)
        self.kids[n].append(t)
        if sa:
            self.acts[n] = True
        self.ev("add", fn, td=n, t=t, id=gid, sa=sa, how=kind)

    def spell(self, sel):
        text = self.rng.random() < 0.5
        if sel[0] == "va" and text:
            return "[" + ", ".join("%rj" % (x * U) for x in sel[1]) + "]"
        return p20.render(sel, self.ax, self.rng, text)

    def target(self, n):
        return self.top if n == "" else self.tds[n]

    def activate(self, n, sel):
        x = self.spell(sel)
        f = self.rng.choice(["activate", "activate_time"])
        self.acts[n] = True
        self.ev("activate", lambda: getattr(self.tds[n], f)(x), td=n, sel=sel, spelling=repr(x))

    def down(self, n, sel):
        tgt = self.target(n)
        kw = {}
        if sel[0] != "none":
            kw["time"] = self.spell(sel)
        op = self.rng.choice(["grid", "field", "field", "fields"])
        if op == "grid":
            fn = lambda: self.gid(tgt.get_grid(**kw))
        elif op == "field":
            def fn():
                f = tgt["f"] if sel[0] == "none" and self.rng.random() < 0.4 else tgt.get_field("f", **kw)
                return int(f.data[0])
        else:
            k = self.rng.randrange(3)

            def fn():
                if k == 0:
                    r = {f.name: int(f.data[1]) for f in tgt.iter_fields(**kw)}
                elif k == 1:
                    r = {nm: int(f.data[1]) for nm, f in tgt.iter_field_items(**kw)}
                else:
                    r = {nm: int(f.data[1]) for nm, f in tgt.field_dict(**kw).items()}
                assert sorted(r) == ["f", "h"] and r["f"] == r["h"], r
                return r["f"]
        self.ev(op, fn, td=n, sel=sel, spelling=repr(kw))

    def iter(self, n, sel, mode):
        tgt = self.target(n)
        kw = {}
        if mode == "noend":
            kw["val_endpoint"] = False
        elif mode == "interior":
            kw["interior"] = True
        x = self.spell(sel)
        k = self.rng.randrange(4)

        def fn():
            if k == 0:
                return [self.gid(g) for g in tgt.get_times(x, **kw)]
            if k == 1 and n != "":
                return [self.gid(g) for g in tgt.iter_times(sel=x, resolved=False, **kw)]
            out = []
            for g in tgt.iter_times(x, **kw):
                out.append(self.gid(g))
                assert int(g["f"].data[0]) == out[-1]
            return out
        self.ev("iter", fn, td=n, sel=sel, mode=mode, spelling=repr(x), how=k)


def interior_ok(s, c):
    """locations that can be interior, in order, with unit stride"""
    if s[0] != "s" or abs(s[3]) != 1 or any(e[0] == "i" for e in s[1:3]):
        return False
    v = [e[1] for e in s[1:3] if e[0] == "v"]
    return all(c[0] <= x <= c[-1] for x in v) and (len(v) < 2 or (v[0] <= v[1]) == (s[3] > 0))


def rand_time_sel(rng, c, kinds):
    for _ in range(50):
        s = S.rand_sel(rng, c, arrays="a" in kinds, bad=0.05)
        if s[0] in kinds:
            if s[0] == "s" and any(e[0] == "v" and (e[1] < 0 or len(set(c)) < len(c)) for e in s[1:3]) or s[0] == "v" and s[1] < 0:
                continue
            return s
    return ["all"]


def drive(rec, tier, rng, shard, nshards, gen):
    import vharness
    cap = 1200 if tier == "quick" else 6000
    for n, seq in enumerate(vharness.tours(gen["t"], random.Random(rng.random()), max_events=cap, maxlen=25)):
        r = Rig(rec, rng, "gen/%d" % n, dates=rng.random() < 0.5)
        r.newtd()
        for lab in seq:
            if lab[0] == "add":
                r.add("td0", lab[1], lab[3])
            else:
                r.activate("td0", lab[1])
        r.down("", ["none"]) if r.acts.get("td0") else None
        r.iter("td0", ["all"], "plain")
    for k in range(40 if tier == "quick" else 500):
        walk(rec, rng, "walk/%d" % k, 30)


def walk(rec, rng, name, n):
    r = Rig(rec, rng, name, dates=rng.random() < 0.6)
    r.newtd()
    grid = rng.choice([1, 4, 40])
    for _ in range(n):
        names = list(r.tds)
        full = [m for m in names if r.kids[m]]
        x = rng.random()
        if x < 0.04 and len(names) < 3:
            r.newtd(sa=rng.random() < 0.7)
            continue
        m = rng.choice(names)
        if x < 0.3 or not full:
            r.add(m, grid * rng.randrange(0, 12), sa=rng.random() < 0.6 or not r.acts.get(m))
            continue
        m = rng.choice(full)
        c = sorted(r.kids[m])
        if x < 0.45:
            r.activate(m, rand_time_sel(rng, c, ["i", "v"]))
        elif x < 0.5 and len(full) == len(names):
            sel = rand_time_sel(rng, c, ["v"])
            if sel[0] == "v":
                xx = r.spell(sel)
                for q in names:
                    r.acts[q] = True
                r.ev("activateall", lambda: r.top.activate_time(xx), td="", sel=sel, spelling=repr(xx))
        elif x < 0.54:
            r.topact = m
            r.ev("top", lambda: r.top.activate(m), td=m)
        elif x < 0.68:
            if rng.random() < 0.4:
                r.down(rng.choice([m, ""]) if r.topact in full else m, ["none"])
            elif r.topact in full and rng.random() < 0.5:
                r.down("", rand_time_sel(rng, sorted(r.kids[r.topact]), ["i", "v"]))
            else:
                s = rand_time_sel(rng, c, ["i", "v"])
                if s[0] != "all":
                    r.down(m, s)
        elif x < 0.84:
            q = m
            if rng.random() < 0.3 and names[0] in full:
                q, c = "", sorted(r.kids[names[0]])
            sel = rand_time_sel(rng, c, ["i", "v", "s", "s", "all", "a", "ia", "va", "m"])
            mode = rng.choice(["plain", "plain", "noend", "interior"])
            if mode == "interior" and not interior_ok(sel, c):
                mode = "plain"
            r.iter(q, sel, mode)
        elif x < 0.9:
            q = m
            if rng.random() < 0.3 and names[0] in full:
                q, c = "", sorted(r.kids[names[0]])
            s = rand_time_sel(rng, c, ["i", "v", "s", "all"])
            xx = r.spell(s)
            if rng.random() < 0.5:
                r.ev("first", lambda: r.gid(r.target(q).get_time(xx)), td=q, sel=s, spelling=repr(xx))
            else:
                r.ev("count", lambda: r.target(q).nr_times(xx), td=q, sel=s, spelling=repr(xx))
        elif x < 0.95:
            s = rand_time_sel(rng, c, ["i", "v", "s", "all"])
            nn = len(c)
            if any(isinstance(e, list) and e[0] == "i" and not -nn <= e[1] < nn for e in s[1:3]) or s[0] == "i" and not -nn <= s[1] < nn:
                continue
            xx = r.spell(s)
            r.ev("range", lambda: [r.num(y) for y in r.tds[m].tslc_range(xx)], td=m, sel=s, spelling=repr(xx))
        elif x < 0.98:
            s = rng.choice([["i", rng.randrange(0, len(c))], ["v", grid * rng.randrange(0, 13)]])
            r.ev("has", lambda: (s[1] if s[0] == "i" else "%rf" % (s[1] * U)) in r.tds[m], td=m, sel=s)
        elif rng.random() < 0.5:
            r.kids[m] = []
            r.acts[m] = False
            r.ev("clear", lambda: r.tds[m].remove_all_items(), td=m)
