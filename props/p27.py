"""P27  dates and durations keep their meaning"""
SPEC = "NpTimeTrace"
STATELESS = True
MC = [dict(name="t", module="NpTimeMC", cfg="NpTimeMC.cfg"),
      dict(name="all", module="NpTimeMC", cfg="NpTimeMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 4, "thorough": 8}
UNITS = ["ns", "us", "ms", "s", "m", "h", "D"]
G = 10 ** 9
NS = dict(ns=1, us=1000, ms=10 ** 6, s=G, m=60 * G, h=3600 * G, D=86400 * G)


def split(k):
    """nanoseconds as days, seconds, nanoseconds"""
    s, n = divmod(k, G)
    d, s = divmod(s, 86400)
    return [d, s, n]


class Run(object):
    def __init__(self, rec, rng):
        import numpy as np
        import viscid
        import datetime
        self.np, self.v, self.rec, self.rng, self.dtm = np, viscid, rec, rng, datetime
        self.N = viscid.npdatetime

    # ------------------------------------------------------------- encoding
    def show(self, r):
        np, dtm = self.np, self.dtm
        if isinstance(r, np.ndarray) and r.shape == ():
            r = r[()]
        if isinstance(r, (np.ndarray, list, tuple)):
            return [self.show(x) for x in r]
        if isinstance(r, (np.datetime64, np.timedelta64)):
            kind = "dt" if isinstance(r, np.datetime64) else "td"
            unit = r.dtype.name.split("[")[1].rstrip("]") if "[" in r.dtype.name else "generic"
            i = int(r.astype("i8"))
            if unit in ("ps", "fs", "as"):
                sub = dict(ps=10 ** 3, fs=10 ** 6)
                sub["as"] = 10 ** 9
                if i % sub[unit] and not self.loose:
                    return ["finer", unit, str(r)]
                return [kind, unit] + split(i // sub[unit])
            if unit not in NS:
                return ["coarse", unit, str(r)]
            return [kind, unit] + split(i * NS[unit])
        if isinstance(r, dtm.datetime):
            q = r - dtm.datetime(1970, 1, 1)
            return ["dt", "us", q.days, q.seconds, q.microseconds * 1000]
        if isinstance(r, dtm.timedelta):
            return ["td", "us", r.days, r.seconds, r.microseconds * 1000]
        if isinstance(r, (str, np.str_)):
            return str(r)
        return repr(r)

    def ev(self, op, fn, listed=False, **kw):
        exc = ""
        self.loose = op == "linspace"
        try:
            got = self.show(fn())
            if isinstance(got, str):
                got = ["txt", got]
        except Exception as e:
            got, exc = [], "%s: %s" % (type(e).__name__, str(e)[:80])
        self.rec.ev(op=op, got=got, exc=exc, **kw)

    # ------------------------------------------------------------- values
    def day(self):
        r = self.rng
        return r.choice([r.randrange(-25000, 40000), r.randrange(-3, 400), r.randrange(10000, 20000)])

    def nanos(self, u):
        """a day's time, whole in u"""
        r = self.rng
        k = r.choice([0, r.randrange(86400 * G), r.randrange(86400 * G), 86400 * G - 1, r.randrange(100) * G])
        return k - k % NS[u]

    def stamp(self, u):
        return self.day() * NS["D"] + self.nanos(u)

    def span(self, u, big=True):
        r = self.rng
        k = r.choice([0, 1, r.randrange(1000), r.randrange(100000), r.randrange(10 ** 6)])
        k = k * NS[u]
        if k > 300 * 365 * NS["D"]:
            k = 5 * NS[u]
        return -k if r.random() < 0.3 else k

    def d64(self, k, u):
        return self.np.datetime64(k // NS[u], u)

    def t64(self, k, u):
        return self.np.timedelta64(k // NS[u], u)

    def text(self, styles=None):
        """a date as text, and what it says"""
        r = self.rng
        d = self.dtm.date(1970, 1, 1) + self.dtm.timedelta(self.day())
        h, mi, s = r.randrange(24), r.randrange(60), r.randrange(60)
        nd = r.choice([0, 1, 2, 3, 6, 9])
        f = r.randrange(10 ** nd) if nd else 0
        x = dict(y=d.year, mo=d.month, d=d.day, f=split(f * 10 ** (9 - nd)))
        style = r.choice(styles or ["date", "hm", "hms", "hmsf", "hmsf", "cdate", "ch", "chm", "chms", "chmsf", "space"])
        ss = "%02d" % s
        lit = lambda q: ["lit", q]
        iso = [["Y"], lit("-"), ["m"], lit("-"), ["d"]]
        if style in ("date", "cdate"):
            t = 0
            txt = "%04d-%02d-%02d" % (d.year, d.month, d.day)
            parts = iso
        elif style == "ch":
            t = 3600 * h
            txt = "%04d-%02d-%02dT%02d" % (d.year, d.month, d.day, h)
            parts = iso + [lit("T"), ["H"]]
        elif style in ("hm", "chm"):
            t = 3600 * h + 60 * mi
            txt = "%04d-%02d-%02dT%02d:%02d" % (d.year, d.month, d.day, h, mi)
            parts = iso + [lit("T"), ["H"], lit(":"), ["M"]]
        else:
            t = 3600 * h + 60 * mi + s
            if style in ("hmsf", "chmsf", "space") and nd:
                fr = ".%0*d" % (nd, f)
            else:
                fr, nd = "", 0
            if style in ("chms", "chmsf") and r.random() < 0.4:
                ss = "%d" % s
            txt = "%04d-%02d-%02dT%02d:%02d:%s%s" % (d.year, d.month, d.day, h, mi, ss, fr)
            parts = iso + [lit("T"), ["H"], lit(":"), ["M"], lit(":"), ["S"]] + ([lit("."), ["f", nd]] if nd else [])
        if style == "space":
            txt = txt.replace("T", " ")
            parts = [lit(" ") if q == lit("T") else q for q in parts]
        if not (style in ("hmsf", "chmsf", "space") and nd):
            x["f"] = [0, 0, 0]
        if style[0] == "c":
            txt = txt.replace("-", ":").replace("T", ":")
        if r.random() < 0.25:
            txt = r.choice(["UT", "UT ", "ut", " ", "T"][:4]) + txt
            if txt.startswith(("UT ", " ")):
                txt = txt.replace("UT ", "UT")
        if r.random() < 0.1:
            txt = txt + " "
        x.update(s=t, parts=parts)
        return txt, x

    # --------------------------------------------------------------- events
    def one(self):
        r, np, N, dtm = self.rng, self.np, self.N, self.dtm
        op = r.choice(["read", "read", "iso", "amount", "amount", "clock", "native", "recast", "sum", "sum", "diff", "round", "regular",
                       "linspace", "secs", "stamp", "stamp", "long", "long", "fixed", "fixed", "like"])
        if op == "read":
            txt, x = self.text()
            unit = ""
            if r.random() < 0.3:
                unit = r.choice(["ns", "us", "ns"]) if x["f"][2] % 1000 == 0 else "ns"
            fn = r.choice([N.as_datetime64, N.to_datetime64])
            if r.random() < 0.2:
                unit2 = unit or None
                self.ev("read", lambda: fn([txt], unit=unit2)[0], x=x, unit=unit, txt=txt)
            else:
                self.ev("read", lambda: fn(txt, unit=unit or None), x=x, unit=unit, txt=txt)
        elif op == "iso":
            m = r.choice([1, 1, 2, 3])
            q = [self.text() for _ in range(m)]
            txts, xs = [a for a, _ in q], [b for _, b in q]
            how = r.choice(["list", "tuple", "array"]) if m > 1 or r.random() < 0.3 else "one"
            arg = dict(list=list(txts), tuple=tuple(txts), array=np.array(txts), one=txts[0])[how]

            def fn():
                g = N.as_isotime(arg)
                return g if how != "one" else [g]
            self.iso(fn, xs, txts, how)
        elif op == "amount":
            u = r.choice(["h", "m", "s", "s", "s", "ms", "us", "ns"])
            p = r.randrange(0, dict(h=4, m=5, s=7, ms=7, us=4, ns=1)[u])
            count = r.choice([r.randrange(0, 10), r.randrange(-1000, 1000), r.randrange(-10 ** 6, 10 ** 6), r.randrange(0, 10 ** 9)])
            x = count / 10.0 ** p if p or r.random() < 0.5 else count
            if r.random() < 0.2:
                x = np.float64(x) if isinstance(x, float) else np.int64(x)
            if u == "s" and r.random() < 0.5:
                fn = lambda: N.as_timedelta64(x)
            else:
                fn = lambda: N.as_timedelta64(x, u)
            if r.random() < 0.2:
                self.ev("amount", lambda: N.as_timedelta64([x], unit=u)[0], count=count, p=p, u=u, x=repr(x))
            else:
                self.ev("amount", fn, count=count, p=p, u=u, x=repr(x))
        elif op == "clock":
            h, mi, s, p = r.randrange(0, 60), r.randrange(60), r.randrange(60), r.choice([0, 0, 1, 2, 3])
            f = r.randrange(10 ** p)
            n = r.randrange(3)
            txt = "%02d" % s + (".%0*d" % (p, f) if p else "")
            tot = s
            if n > 0:
                txt = "%02d:%s" % (mi, txt)
                tot += 60 * mi
            if n > 1:
                txt = "%02d:%s" % (h, txt)
                tot += 3600 * h
            if r.random() < 0.1:
                txt = "T" + txt
            self.ev("amount", lambda: N.as_timedelta64(txt), count=tot * 10 ** p + f, p=p, u="s", x=txt)
        elif op == "native":
            if r.random() < 0.5:
                u = r.choice(UNITS[:5])
                k = self.stamp(u)
                if r.random() < 0.4:
                    x = dtm.datetime(1970, 1, 1) + dtm.timedelta(microseconds=k // 1000)
                    k = k // 1000 * 1000
                    fn = r.choice([lambda: N.as_datetime64(x), lambda: N.as_datetime(x)])
                else:
                    x = self.d64(k, u)
                    fn = r.choice([lambda: N.as_datetime(x), lambda: N.to_datetime(x), lambda: N.as_datetime64(N.as_datetime(x))])
                self.ev("native", fn, kind="dt", t=split(k))
            else:
                u = r.choice(UNITS)
                k = self.span(u)
                if r.random() < 0.4:
                    k = k // 1000 * 1000
                    x = dtm.timedelta(microseconds=k // 1000)
                    fn = r.choice([lambda: N.as_timedelta64(x), lambda: N.as_timedelta(x)])
                else:
                    x = self.t64(k, u)
                    fn = r.choice([lambda: N.as_timedelta(x), lambda: N.to_timedelta(x)])
                self.ev("native", fn, kind="td", t=split(k))
        elif op == "recast":
            u, w = r.choice(UNITS), r.choice(UNITS)
            if r.random() < 0.5:
                k = self.stamp(u)
                x = self.d64(k, u)
                self.ev("recast", r.choice([lambda: N.as_datetime64(x, w), lambda: N.as_datetime64([x], w)[0], lambda: N.as_datetime64(np.array([x]), w)[0]]),
                        kind="dt", t=split(k), unit=w)
            else:
                k = self.span(u)
                x = self.t64(k, u)
                self.ev("recast", lambda: N.as_timedelta64(x, w), kind="td", t=split(k), unit=w)
        elif op in ("sum", "diff"):
            u, w = r.choice(UNITS), r.choice(UNITS)
            k = self.stamp(u)
            b = self.d64(k, u)
            fine = min(u, w, key=UNITS.index)
            unit = None
            if r.random() < 0.3:
                unit = r.choice(UNITS[:UNITS.index(fine) + 1])
            most = r.random() < 0.2
            want = "" if most else unit or fine
            kw = {}
            if unit:
                kw["unit"] = unit
            if most:
                kw["most_precise"] = True
            if op == "sum":
                j = self.span(w) % (50 * 365 * NS["D"])
                j -= j % NS[w]
                if r.random() < 0.3:
                    j = -j
                x = self.t64(j, w)
                self.ev("sum", lambda: N.time_sum(b, x, **kw), t=split(k), by=split(j), unit=want)
            else:
                j = self.stamp(w)
                x = self.d64(j, w)
                self.ev("diff", lambda: N.time_diff(b, x, **kw), t=split(k), by=split(j), unit=want)
        elif op in ("round", "regular"):
            ts, xs = [], []
            one = r.random() < 0.6
            kind = r.choice(["dt", "td"])
            for _ in range(r.randrange(1, 5)):
                u = r.choice(UNITS)
                kk = kind if one else r.choice(["dt", "td"])
                k = self.stamp(u) if kk == "dt" else self.span(u)
                ts.append(dict(kind=kk, t=split(k), u=u))
                xs.append(self.d64(k, u) if kk == "dt" else self.t64(k, u))
            if op == "round":
                unit = r.choice(UNITS)
                if len(xs) == 1 and r.random() < 0.7:
                    self.ev("round", lambda: [N.round_time(xs[0], unit)], ts=ts, unit=unit)
                else:
                    self.ev("round", lambda: N.round_time(xs, unit), ts=ts, unit=unit)
            else:
                unit = r.choice(["", "", r.choice(UNITS)])
                most = r.random() < 0.2
                kw = dict(most_precise=most)
                if unit:
                    kw["unit"] = unit
                self.ev("regular", lambda: N.regularize_time(xs, **kw), ts=ts, unit=unit, most=most)
        elif op == "linspace":
            u, w = r.choice(UNITS), r.choice(UNITS)
            a, b = self.stamp(u), self.stamp(w)
            if r.random() < 0.5:
                b = a + r.randrange(1, 10000) * NS[r.choice(["s", "m", "ms", "h"])]
                w = "ns"
            n, endp = r.randrange(1, 9), r.random() < 0.7
            x, y = self.d64(a, u), self.d64(b, w)
            if r.random() < 0.5:
                x, y = str(x), str(y)
            self.ev("linspace", lambda: N.linspace_datetime64(x, y, n, endpoint=endp), t0=split(a), t1=split(b), n=n, endpoint=endp)
        elif op == "secs":
            p = r.choice([0, 0, 1, 3])
            u = r.choice(["us", "ms", "s"])
            if r.random() < 0.5:
                k = self.stamp(u)
                x = self.d64(k, u)
                kind = "dt"
                fn = r.choice([lambda: N.datetime_as_seconds(x, p), lambda: N.time_as_seconds(x, p)])
            else:
                k = abs(self.span(u))
                x = self.t64(k, u)
                kind = "td"
                fn = r.choice([lambda: N.timedelta_as_seconds(x, p), lambda: N.time_as_seconds(x, p)])
            self.ev("secs", fn, kind=kind, t=split(k), p=p)
        elif op == "stamp":
            nd = r.choice([0, 0, 1, 2, 3, 6])
            k = self.stamp("us")
            if r.random() < 0.5:
                # close to the end of a second
                k -= k % G
                k += r.choice([999600, 999961, 996000, 500001, 4000, 999999, 950001, 12]) * 1000
            if nd and (k % (10 ** (9 - nd))) * 2 == 10 ** (9 - nd):
                k += 1000
            lit = lambda q: ["lit", q]
            if r.random() < 0.5:
                fmt, parts = "%Y-%m-%d %H:%M:%S", [["Y"], lit("-"), ["m"], lit("-"), ["d"], lit(" "), ["H"], lit(":"), ["M"], lit(":"), ["S"]]
                if r.random() < 0.2 and not nd:
                    fmt = "UT"
            else:
                fmt, parts = r.choice([("%H:%M:%S", [["H"], lit(":"), ["M"], lit(":"), ["S"]]), ("%j/%Y", [["j"], lit("/"), ["Y"]]),
                                       ("%d at %H%M", [["d"], lit(" at "), ["H"], ["M"]]), ("t=%S", [lit("t="), ["S"]]),
                                       ("%Y%m%d%H%M%S", [["Y"], ["m"], ["d"], ["H"], ["M"], ["S"]])])
            if nd:
                fmt += "." + r.choice(["%.0{0}f", "%{0}f", "%0{0}f", "%.{0}f"]).format(nd)
                parts = parts + [lit("."), ["f", nd]]
                if nd == 6 and r.random() < 0.5:
                    fmt = fmt[:fmt.rindex("%")] + "%f"
            x = self.when(k)
            self.ev("stamp", lambda: N.format_time(x, fmt), t=split(k), parts=parts, fmt=fmt)
        elif op == "long":
            style = r.choice(["hms", "hmss", "dhms", "dhmss"])
            k = r.choice([r.randrange(100), r.randrange(86400), r.randrange(86400 * 4), r.randrange(86400 * 90)]) * G
            if r.random() < 0.3:
                k += r.randrange(1000) * 10 ** 6
            x = self.howlong(k)
            self.ev("long", lambda: N.format_time(x, style), t=split(k), style=style, x=repr(x))
        elif op == "fixed":
            p = r.choice([0, 1, 2, 3, 3])
            k = r.choice([r.randrange(100), r.randrange(86400 * 400)]) * G + r.randrange(1000) * 10 ** 6
            if r.random() < 0.2:
                k = -k
            if p < 3 and (k % 10 ** (9 - p)) * 2 == 10 ** (9 - p):
                k += 10 ** 6
            base = 0
            fmt = r.choice([".0%df", ".%df"]) % p
            if r.random() < 0.3:
                base = r.randrange(-100, 100) * 86400 * G
                k = base + (k % (86400 * 300 * G))
                x, b = self.when(k // 1000 * 1000), self.d64(base, "s")
                self.ev("fixed", lambda: N.format_time(x, fmt, basetime=b), t=split(k), base=split(base), p=p, fmt=fmt)
            else:
                x = self.howlong(k)
                self.ev("fixed", lambda: N.format_time(x, fmt), t=split(k), base=split(0), p=p, fmt=fmt, x=repr(x))
        else:
            w, cons = r.choice(["date", "span", "any"]), r.random() < 0.5
            kinds = ["num", "numtext", "datetext"] + (["clocktext"] if w == "span" else []) + [ "junk", "dt", "td", "none"]
            m = r.choice([0, 0, 1, 2, 3])
            k = [r.choice(kinds) for _ in range(max(1, m))]
            if m and r.random() < 0.6:
                k = [k[0]] * m
            if m:
                k = ["num" if q in ("none", "numtext") else q for q in k]
            vals = [self.of(q) for q in k]
            x = vals if m else vals[0]
            if m and set(k) <= {"dt"} and r.random() < 0.5:
                x = np.array(["2010-01-01"] * m, dtype="M8[s]")
            elif m and set(k) <= {"td"} and r.random() < 0.5:
                x = np.arange(m).astype("m8[s]")
            elif m and set(k) == {"num"} and cons and r.random() < 0.4:
                x = np.arange(m) + 0.5
            f = dict(date=N.is_datetime_like, span=N.is_timedelta_like, any=N.is_time_like)[w]
            got, exc = [], ""
            try:
                got = bool(f(x, conservative=cons))
            except Exception as e:
                exc = repr(e)[:80]
            self.rec.ev(op="like", k=k, many=bool(m), w=w, cons=cons, got=got, exc=exc)

    def iso(self, fn, xs, txts, how):
        got, exc = [], ""
        try:
            got = ["txt"] + [str(q) for q in fn()]
        except Exception as e:
            exc = repr(e)[:80]
        self.rec.ev(op="iso", xs=xs, got=got, exc=exc, txts=txts, how=how)

    def of(self, k):
        r, np, dtm = self.rng, self.np, self.dtm
        if k == "num":
            return r.choice([3, 2.5, np.float64(1.5), np.int32(7), 0])
        if k == "numtext":
            return r.choice(["900", "1990"])
        if k == "datetext":
            return r.choice(["2010-06-21", "2010-06-21T03:00:01.5", "2010:06:21:03:00", "UT2010-06-21"])
        if k == "clocktext":
            return r.choice(["12:30:00", "5:30", "T01:02:03.5"])
        if k == "junk":
            return r.choice(["monday", "12:xx", "a-b-c"])
        if k == "dt":
            return r.choice([np.datetime64("2010-01-01"), dtm.datetime(2011, 2, 3), np.datetime64("2010-01-01T00:00:01.5")])
        if k == "td":
            return r.choice([np.timedelta64(3, "s"), dtm.timedelta(1), np.timedelta64(0, "h")])
        return None

    def when(self, k):
        """the same date in several ways"""
        x = self.d64(k, "us" if k % 1000 == 0 else "ns")
        how = self.rng.randrange(4)
        if how == 0:
            return str(x)
        if how == 1:
            return self.dtm.datetime(1970, 1, 1) + self.dtm.timedelta(microseconds=k // 1000)
        return x

    def howlong(self, k):
        how = self.rng.randrange(4)
        if how == 0:
            return self.t64(k, "ms")
        if how == 1:
            return self.dtm.timedelta(microseconds=k // 1000)
        if k % G == 0 and how == 2:
            return k // G
        return k / 1e9


def drive(rec, tier, rng, shard, nshards, gen):
    r = Run(rec, rng)
    n = 60 if tier == "quick" else 1500
    for k in range(n):
        rec.begin("p27/%d" % k)
        for _ in range(20):
            r.one()
