"""P20  locations and indices on one axis"""
SPEC = "SelectTrace"
STATELESS = True
MC = [dict(name="sel", module="SelectMC", cfg="SelectMC.cfg", gen=True, tiers=("quick",)),
      dict(name="sel", module="SelectMC", cfg="SelectMCbig.cfg", gen=True, tiers=("thorough",))]
SHARDS = {"quick": 6, "thorough": 8}
UNIT = 0.25


def num(x, sfx, unit=UNIT):
    v = x * unit
    if sfx == "exp":
        return "%ej" % v
    return "%r%s" % (v, sfx)


class Float(object):
    """locations on a floating point axis"""
    kind = "float"

    def arr(self, c):
        import numpy as np
        return np.array([x * self.unit for x in c], dtype=self.dtype)

    def __init__(self, dtype="f8", unit=UNIT):
        self.dtype = dtype
        self.unit = unit

    def values(self, x, rng):
        import numpy as np
        u = self.unit
        return rng.choice([lambda: 1j * x * u, lambda: np.complex64(1j * x * u), lambda: num(x, "j", u),
                           lambda: num(x, "f", u), lambda: num(x, "exp", u)])()

    def text(self, x, rng):
        u = self.unit
        return rng.choice([num(x, "j", u), num(x, "f", u), num(x, "J", u), num(x, "exp", u)])


class TDelta(object):
    kind = "timedelta"

    def arr(self, c):
        import numpy as np
        return np.array([self.td(x) for x in c])

    def td(self, x):
        import numpy as np
        return np.timedelta64((x + 60) * 250, "ms")

    def text(self, x, rng):
        ms = (x + 60) * 250
        s, ms = divmod(ms, 1000)
        h, r = divmod(s, 3600)
        m, s = divmod(r, 60)
        return rng.choice(["T%02d:%02d:%02d.%03d" % (h, m, s, ms), "%rj" % ((x + 60) * UNIT)])

    def values(self, x, rng):
        import datetime
        return rng.choice([lambda: self.td(x), lambda: datetime.timedelta(milliseconds=(x + 60) * 250),
                           lambda: self.text(x, rng), lambda: 1j * (x + 60) * UNIT])()


class DTime(object):
    kind = "datetime"

    def __init__(self):
        self.c0 = 0

    def arr(self, c):
        import numpy as np
        self.c0 = c[0]
        return np.array([self.dt(x) for x in c])

    def dt(self, x):
        import numpy as np
        return np.datetime64("2010-06-30T23:59:50.000") + np.timedelta64(x * 250, "ms")

    def text(self, x, rng):
        return rng.choice(["UT", "T", "ut"]) + str(self.dt(x)) if rng.random() < 0.7 else "%rj" % ((x - self.c0) * UNIT)

    def values(self, x, rng):
        import numpy as np
        return rng.choice([lambda: self.dt(x), lambda: self.dt(x).astype("M8[us]").item(),
                           lambda: "UT" + str(self.dt(x)), lambda: 1j * (x - self.c0) * UNIT,
                           lambda: np.timedelta64((x - self.c0) * 250, "ms")])()


def render(sel, ax, rng, as_text):
    """one of the spellings of an abstract selection"""
    import numpy as np
    t = sel[0]

    def pos(k):
        return rng.choice([int, np.int64, np.int32])(k)
    if as_text:
        if t == "all":
            return rng.choice([":", "::", "::1", "None:None"])
        if t == "i":
            return str(sel[1])
        if t == "v":
            return ax.text(sel[1], rng)
        if t == "ia":
            return "[" + ", ".join(str(k) for k in sel[1]) + "]"
        if t == "m":
            return "[" + " ".join("True" if b else "False" for b in sel[1]) + "]"
        if t == "va":
            return "[" + ", ".join(ax.text(x, rng) for x in sel[1]) + "]"

        def end(e):
            return {"n": lambda: rng.choice(["", "", "None"]), "i": lambda: str(e[1]),
                    "v": lambda: ax.text(e[1], rng)}[e[0]]()
        pad = rng.choice(["", "", " "])
        s = pad + end(sel[1]) + pad + ":" + pad + end(sel[2]) + pad
        if sel[3] != 1 or rng.random() < 0.3:
            s += ":" + str(sel[3])
        elif rng.random() < 0.2:
            s += ":"
        return s
    if t == "all":
        return slice(None)
    if t == "i":
        return pos(sel[1])
    if t == "v":
        return ax.values(sel[1], rng)
    if t == "ia":
        return rng.choice([list, np.array])(sel[1])
    if t == "m":
        return rng.choice([list, lambda x: np.array(x, dtype=bool)])([bool(b) for b in sel[1]])
    if t == "va":
        return rng.choice([list, np.array])([1j * x * ax.unit for x in sel[1]])

    def end(e):
        return {"n": lambda: None, "i": lambda: pos(e[1]), "v": lambda: ax.values(e[1], rng)}[e[0]]()
    step = sel[3]
    if step == 1 and rng.random() < 0.6:
        step = None
    return slice(end(sel[1]), end(sel[2]), step)


def run(case, ax, route, rng):
    import numpy as np
    import viscid
    c, sel, mode = case
    n = len(c)
    arr = ax.arr(c)
    as_text = rng.random() < 0.45
    ev = dict(c=c, sel=sel, mode=mode, axis=ax.kind, route=route)
    try:
        s = render(sel, ax, rng, as_text)
        ev["spelling"] = repr(s)
        if route == "std":
            std = viscid.standardize_sel_list(viscid.raw_sel2sel_list((s,)))
            idx = viscid.std_sel_list2index(std, [arr], val_endpoint=mode != "noend", interior=mode == "interior")[0]
            if idx is None:
                raise ValueError("None")
            got = np.arange(n)[idx]
            ev["got"] = ["ok", [int(i) for i in np.atleast_1d(got)], np.ndim(got) == 0]
        else:
            data = np.arange(n, dtype="f8") + 0.5
            if route == "fld":
                f = viscid.arrays2field([arr], data, name="f", center="node")
            else:
                # the cell centres are the coordinates: build nodes around them
                f = viscid.wrap_field(data, viscid.arrays2crds([arr], crd_names="x"), name="f", center="node")
            if ax.kind == "float" and sel[0] in "sv" and rng.random() < 0.3 and all(
                    e[0] != "i" for e in sel[1:3] if isinstance(e, list)):
                def raw(e):
                    return None if e[0] == "n" else e[1] * UNIT
                s = sel[1] * UNIT if sel[0] == "v" else slice(raw(sel[1]), raw(sel[2]), sel[3])
                ev["spelling"] = "loc[%r]" % (s,)
                r = f.loc[s]
            else:
                if as_text and rng.random() < 0.5:
                    s = "x=" + s
                    ev["spelling"] = s
                r = f[s if rng.random() < 0.5 else (s,)]
            if isinstance(r, viscid.field.Field):
                vals = np.asarray(r.data).reshape(-1)
                crds = r.get_crd("x") if r.nr_sdims else []
                if ax.kind == "float":
                    cc = [int(round(x / UNIT)) for x in crds]
                elif ax.kind == "timedelta":
                    cc = [int(x / np.timedelta64(250, "ms")) - 60 for x in crds]
                else:
                    cc = [int((x - ax.dt(0)) / np.timedelta64(250, "ms")) for x in crds]
                ev["got"] = ["ok", [int(v) for v in vals], False, cc]
            else:
                one = [int(v) for v in np.asarray(r).reshape(-1)]
                ev["got"] = ["ok", one, sel[0] in "iv"]     # a single element comes back as a number
    except Exception as e:
        ev["got"] = ["exc", type(e).__name__]
        ev["msg"] = str(e)[:200]
    return ev


def drive(rec, tier, rng, shard, nshards, gen):
    cases = [g[1:] for g in gen["sel"] if g[0] == "case"]
    cases.sort(key=str)
    axes = [Float("f8"), Float("f8"), Float("f4"), TDelta(), DTime()]
    n = 0
    for i, (c, sel, mode) in enumerate(cases):
        if i % nshards != shard:
            continue
        if tier == "thorough" and i % 3:
            pass
        ax = axes[(i // nshards) % len(axes)]
        if len(c) == 1 and not lone_ok(c, sel):
            continue
        if n % 100 == 0:
            rec.begin("cases/%d" % n)
        n += 1
        rec.ev(**run((c, sel, mode), ax, "std", rng))
        if mode == "end" and i % 3 == 0 and nonempty(c, sel):
            ax = axes[(i // 7) % len(axes)]
            rec.ev(**run((c, sel, mode), ax, "fld", rng))
    # lists, masks and lists of locations
    for k in range(600 if tier == "quick" else 6000):
        if k % 100 == 0:
            rec.begin("lists/%d" % k)
        ln = rng.randrange(2, 7)
        c = sorted(rng.sample(range(-16, 17), ln))
        t = rng.choice(["ia", "m", "va"])
        m = rng.randrange(1, 5)
        if t == "ia":
            sel = [t, [rng.randrange(-ln, ln) for _ in range(m)]]
            if rng.random() < 0.1:
                sel[1][0] = ln
        elif t == "m":
            sel = [t, [rng.random() < 0.5 for _ in range(ln)]]
        else:
            sel = [t, [rng.randrange(-18, 19) for _ in range(m)]]
        rec.ev(**run((c, sel, "end"), axes[0], "std", rng))
        if t != "m" or sum(sel[1]) > 1:
            rec.ev(**run((c, sel, "end"), axes[0], "fld", rng))


def lone_ok(c, sel):
    """a lone coordinate stands for everything within 1.0 of it; stay away from that region"""
    pts = [e[1] for e in sel[1:3] if isinstance(e, list) and e[0] == "v"] + ([sel[1]] if sel[0] == "v" else [])
    return all(abs(x - c[0]) > 4 or x == c[0] for x in pts)


def nonempty(c, sel):
    return True
