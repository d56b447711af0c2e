"""P37  every way to write a rotation denotes the same rotation"""
SPEC = "RotTrace"
STATELESS = True
MC = [dict(name="r", module="RotMC", cfg="RotMC.cfg", tiers=("quick",)),
      dict(name="r", module="RotMC", cfg="RotMCbig.cfg", tiers=("thorough",))]
SHARDS = {"quick": 4, "thorough": 8}
S = 10000
TRIPLES = [(1, 2, 2, 3), (2, 3, 6, 7), (0, 3, 4, 5), (1, 4, 8, 9), (4, 4, 7, 9), (0, 0, 1, 1), (0, 0, 1, 1), (0, 5, 12, 13), (2, 6, 9, 11)]
AX = "xyz"
EUL = [a + b + c for a in AX for b in AX for c in AX if a != b and b != c]


class Run(object):
    def __init__(self, rec, rng):
        import numpy as np
        import viscid
        from viscid import rotation
        self.np, self.v, self.rec, self.rng = np, rotation, rec, rng

    # -- things in the lattice -------------------------------------------
    def ang(self):
        rng = self.rng
        return 1000 * (rng.choice([0, 90, 180, 270, -90, -180, 360]) if rng.random() < 0.3 else rng.randrange(-400, 401))

    def pyth(self):
        rng = self.rng
        t = rng.choice(TRIPLES)
        u = list(t[:3])
        rng.shuffle(u)
        return [[x * rng.choice([1, -1]) for x in u], t[3]]

    def quat(self):
        rng = self.rng
        while True:
            q = [rng.randrange(-4, 5) for _ in range(4)]
            if rng.random() < 0.3:
                q = [x if rng.random() < 0.5 else 0 for x in q]
            if any(q):
                return q

    def vec(self):
        while True:
            a = [self.rng.randrange(-6, 7) for _ in range(3)]
            if any(a):
                return a

    def stack(self, fn, n=None):
        return [fn() for _ in range(n or self.rng.randrange(1, 4))]

    # -- numbers in and out ------------------------------------------------
    def num(self, x, k):
        a = self.np.asarray(x, dtype="f8") * k
        if not self.np.all(self.np.isfinite(a)) or self.np.any(self.np.abs(a) > 2e9):
            raise RuntimeError("not a number")
        return self.np.rint(a).astype("i8").tolist()

    def mdeg(self, x, unit):
        a = self.np.asarray(x, dtype="f8")
        return self.num(a if unit.lower().strip().startswith("deg") else a * (180 / self.np.pi), 1000)

    def arr(self, x, single, dtype="f8"):
        a = self.np.array(x, dtype=dtype)
        return a[0] if single else a

    def angles(self, mdeg, unit, single):
        a = self.np.array(mdeg, dtype="f8") / 1000
        if not unit.lower().strip().startswith("deg"):
            a = a * (self.np.pi / 180)
        return a[0] if single else a

    def unit(self):
        return self.rng.choice(["deg", "rad", "deg", "rad", "degrees", "Radians"])

    def call(self, op, fn, argv, dec, single=True, **kw):
        """argv are the arrays handed over; they may not change"""
        np = self.np
        before = [np.array(a) for a in argv]
        if self.rng.random() < 0.25:
            argv = [a.tolist() if isinstance(a, np.ndarray) else a for a in argv]
        try:
            r = fn(*argv)
            got = ["ok"] + dec(r)
        except Exception as e:
            got = ["exc", type(e).__name__, str(e)[:120]]
        pure = all(np.array_equal(np.array(a), b) for a, b in zip(argv, before))
        self.rec.ev(op=op, got=got, pure=bool(pure), single=single, **kw)

    def dmats(self, r):
        a = self.np.asarray(r)
        if a.shape[-2:] != (3, 3) or a.ndim not in (2, 3):
            raise RuntimeError("shape %r" % (a.shape,))
        return [self.num(a.reshape(-1, 3, 3), S), a.ndim == 2]

    def dvecs(self, r, k, n=3):
        a = self.np.asarray(r)
        if a.shape[-1:] != (n,) or a.ndim not in (1, 2):
            raise RuntimeError("shape %r" % (a.shape,))
        return [self.num(a.reshape(-1, n), k), a.ndim == 1]

    # -- events ---------------------------------------------------------------
    def to_mat(self):
        rng, v, np = self.rng, self.v, self.np
        k = rng.choice(["elem", "angle", "angle", "eul", "eul", "axis", "axis", "quat", "quat"])
        sense = rng.choice(["rot", "dcm"])
        unit = self.unit()
        single = rng.random() < 0.5
        n = 1 if single else rng.randrange(1, 4)
        ax = []
        if k == "elem":
            a = rng.randrange(3)
            ax = [a + 1]
            items = self.stack(self.ang, n)
            how = rng.choice([a, AX[a], AX[a].upper(), " %s " % AX[a]])
            fn = lambda t: (v.e_rot if sense == "rot" else v.e_dcm)(t, how, unit=unit)
            args = [self.angles(items, unit, single)]
        elif k in ("angle", "eul"):
            axes = rng.choice(EUL)
            ax = [AX.index(c) + 1 for c in axes]
            items = self.stack(lambda: [self.ang() for _ in range(3)], n)
            names = {"anglerot": ["angle2rot", "angles2rot", "angle2rotm", "angles2rotm"], "angledcm": ["angle2dcm", "angles2dcm"],
                     "eulrot": ["eul2rot", "eul2rotm"], "euldcm": ["eul2dcm"]}[k + sense]
            f = getattr(v, rng.choice(names))
            args = [self.angles(items, unit, single)]
            form = rng.choice([axes, list(axes), axes])
            fn = (lambda t: f(t, unit=unit)) if axes == "zyx" and rng.random() < 0.5 else (lambda t: f(t, form, unit=unit))
        elif k == "axis":
            sense = "rot"
            items = self.stack(lambda: self.pyth() + [self.ang()], n)
            s = rng.choice([1, 1, 2, 0.5])
            if rng.random() < 0.5:
                f = getattr(v, rng.choice(["wxyz2rot", "wxyz2rotm"]))
                fn = lambda t, u: f(t, u, unit=unit)
                va = [[x * s for x in i[0]] for i in items]
                if not single and n > 1 and rng.random() < 0.4:
                    items = [items[0][:2] + [i[2]] for i in items]
                    va = va[:1]
                args = [self.angles([i[2] for i in items], unit, single), self.arr(va, single or (len(va) == 1 and rng.random() < 0.5))]
                if not single and n > 1 and len(va) > 1 and rng.random() < 0.3:
                    items = [i[:2] + [items[0][2]] for i in items]
                    args[0] = self.angles([items[0][2]], unit, rng.random() < 0.5)
            else:
                f = getattr(v, rng.choice(["axang2rot", "axang2rotm"]))
                fn = lambda t: f(t, unit=unit)
                t = self.angles([i[2] for i in items], unit, False)
                args = [self.arr([[x * s for x in i[0]] + [a] for i, a in zip(items, t)], single)]
        else:
            items = self.stack(self.quat, n)
            f = v.quat2dcm if sense == "dcm" else getattr(v, rng.choice(["quat2rot", "quat2rotm"]))
            s = rng.choice([1, 1, 0.5, 0])
            if s:
                a = self.arr([[x * s for x in q] for q in items], single)
            else:
                a = self.arr([[x / np.sqrt(sum(y * y for y in q)) for x in q] for q in items], single)
            if s == 1 and rng.random() < 0.5:
                a = a.astype(rng.choice(["i8", "f4", "i4"]))
            args, fn = [a], f
        self.call("mat", fn, args, self.dmats, single=single, k=k, sense=sense, ax=ax, items=items)

    def cross(self):
        """axis and angle as quaternion and back"""
        rng, v, np = self.rng, self.v, self.np
        single = rng.random() < 0.5
        n = 1 if single else rng.randrange(1, 4)
        unit = self.unit()
        if rng.random() < 0.5:
            items = self.stack(lambda: self.pyth() + [self.ang()], n)
            s = rng.choice([1, 2, 0.5])
            va = [[x * s for x in i[0]] for i in items]
            t = self.angles([i[2] for i in items], unit, False)
            if rng.random() < 0.5:
                if n > 1 and rng.random() < 0.4:
                    if rng.random() < 0.5:
                        items = [items[0][:2] + [i[2]] for i in items]
                        va = va[:1]
                    else:
                        items = [i[:2] + [items[0][2]] for i in items]
                        t = t[:1]
                args = [t[0] if single else t, self.arr(va, single)]
                fn = lambda a, u: v.wxyz2quat(a, u, unit=unit)
            else:
                args = [self.arr([u + [a] for u, a in zip(va, t)], single)]
                fn = lambda a: v.axang2quat(a, unit=unit)
            self.call("cross", fn, args, lambda r: self.dvecs(r, S, 4), single=single, k="axis", to="quat", items=items)
        else:
            items = self.stack(self.quat, n)
            args = [self.arr(items, single, rng.choice(["f8", "i8"]))]
            pair = rng.random() < 0.5

            def dec(r):
                if pair:
                    w, u = r
                else:
                    r = np.asarray(r)
                    w, u = r[..., 3], r[..., :3]
                g, one = self.dvecs(u, S)
                w = self.mdeg(np.asarray(w).reshape(-1), unit)
                if len(w) != len(g):
                    raise RuntimeError("lengths")
                return [[list(p) for p in zip(g, w)], one]
            self.call("cross", lambda q: (v.quat2wxyz if pair else v.quat2axang)(q, unit=unit), args, dec, single=single, k="quat", to="axis", items=items)

    def of_quat(self, q):
        w, x, y, z = q
        n = float(sum(a * a for a in q))
        return [[1 - 2 * (y * y + z * z) / n, 2 * (x * y - z * w) / n, 2 * (x * z + y * w) / n],
                [2 * (x * y + z * w) / n, 1 - 2 * (x * x + z * z) / n, 2 * (y * z - x * w) / n],
                [2 * (x * z - y * w) / n, 2 * (y * z + x * w) / n, 1 - 2 * (x * x + y * y) / n]]

    def el(self, ax, t):
        np = self.np
        c, s = np.cos(t), np.sin(t)
        m = np.eye(3)
        i, j = (ax + 1) % 3, (ax + 2) % 3
        m[i, i], m[j, j], m[i, j], m[j, i] = c, c, -s, s
        return m

    def some_mat(self, axes):
        """a matrix; often one where the angles of these axes are degenerate"""
        np, rng = self.np, self.rng
        if rng.random() < 0.5:
            return np.array(self.of_quat(self.quat()))
        t = [np.radians(rng.randrange(-180, 181)) for _ in range(3)]
        if rng.random() < 0.7:
            t[1] = np.radians(rng.choice([-180, -90, 0, 90, 180]))
        return np.dot(self.el(AX.index(axes[2]), t[2]), np.dot(self.el(AX.index(axes[1]), t[1]), self.el(AX.index(axes[0]), t[0])))

    def from_mat(self):
        rng, v, np = self.rng, self.v, self.np
        to = rng.choice(["angle", "angle", "eul", "eul", "quat", "axis", "axis"])
        sense = rng.choice(["rot", "dcm"]) if to != "axis" else "rot"
        unit = self.unit()
        single = rng.random() < 0.5
        n = 1 if single else rng.randrange(1, 4)
        axes = rng.choice(EUL)
        ms = [self.some_mat(axes) for _ in range(n)]
        mats = [self.num(m, S) for m in ms]
        args = [self.arr(ms, single)]
        if to in ("angle", "eul"):
            names = {"anglerot": ["rot2angle", "rot2angles", "rotm2angle", "rotm2angles"], "angledcm": ["dcm2angle", "dcm2angles"],
                     "eulrot": ["rot2eul", "rotm2eul"], "euldcm": ["dcm2eul"]}[to + sense]
            f = getattr(v, rng.choice(names))
            fn = lambda m: f(m, axes, unit=unit, bad_matrix="ignore")

            def dec(r):
                self.dvecs(r, 1)
                a = np.asarray(r)
                return [self.mdeg(a.reshape(-1, 3), unit), a.ndim == 1]
        elif to == "quat":
            f = v.dcm2quat if sense == "dcm" else getattr(v, rng.choice(["rot2quat", "rotm2quat"]))
            fn, dec = f, lambda r: self.dvecs(r, S, 4)
        else:
            quick = rng.random() < 0.5
            pair = rng.random() < 0.5
            f = getattr(v, rng.choice(["rot2wxyz", "rotm2wxyz"] if pair else ["rot2axang", "rotm2axang"]))
            fn = lambda m: f(m, unit=unit, quick=quick, bad_matrix="ignore")

            def dec(r):
                if pair:
                    w, u = r
                else:
                    r = np.asarray(r)
                    w, u = r[..., 3], r[..., :3]
                g, one = self.dvecs(u, S)
                return [[list(p) for p in zip(g, self.mdeg(np.asarray(w).reshape(-1), unit))], one]
        self.call("inv", fn, args, dec, single=single, to=to, sense=sense, ax=[AX.index(c) + 1 for c in axes], mats=mats)

    def products(self):
        rng, v, np = self.rng, self.v, self.np
        op = rng.choice(["rotmul", "rotate", "rotate", "qmul", "qmul", "rotate-q"])
        n = rng.randrange(1, 4)
        m = rng.randrange(1, 4)
        qs, args, single = [], [], True
        for _ in range(m):
            one = n == 1 or rng.random() < 0.4
            q = self.stack(self.quat, 1 if one else n)
            flat = one and rng.random() < 0.7
            single = single and flat
            qs.append(q)
            args.append(self.arr(q if op in ("qmul", "rotate-q") else [self.of_quat(x) for x in q], flat))
        if op == "rotmul":
            self.call(op, v.rotmul, args, self.dmats, single=single, args=qs)
        elif op == "qmul":
            self.call(op, v.quatmul, args, lambda r: self.dvecs(r, 1000, 4), single=single, args=qs)
        else:
            one = rng.random() < 0.5
            vec = self.stack(self.vec, 1 if one else n)
            flat = one and rng.random() < 0.7
            self.call("rotate", v.rotate if op == "rotate" else v.quat_rotate, [self.arr(vec, flat)] + args,
                      lambda r: self.dvecs(r, S), single=single and flat, args=qs, vec=vec)

    def pair(self):
        rng = self.rng
        a = self.pyth()
        k = rng.random()
        if k < 0.15:
            return a, [list(a[0]), a[1]]
        if k < 0.3:
            return a, [[-x for x in a[0]], a[1]]
        return a, self.pyth()

    def stretch(self, p):
        return [float(x) * self.rng.choice([1]) for x in p[0]]

    def between(self):
        rng, v, np = self.rng, self.v, self.np
        n = rng.choice([1, 1, 2, 3])
        A, B = [list(x) for x in zip(*[self.pair() for _ in range(n)])]
        if n > 1 and rng.random() < 0.3:
            A = A[:1]
        fa, fb = len(A) == 1 and rng.random() < 0.7, len(B) == 1 and rng.random() < 0.7
        sa, sb = rng.choice([1, 3, 0.1, 0.7]), rng.choice([1, 3, 0.1, 0.7])
        args = [sa * self.arr([p[0] for p in A], fa), sb * self.arr([p[0] for p in B], fb)]
        unit = self.unit()

        def dec(r):
            a = np.asarray(r)
            return [self.mdeg(a.reshape(-1), unit), a.ndim == 0]
        self.call("between", lambda a, b: v.angle_between(a, b, unit=unit), args, dec, single=fa and fb, **{"from": A, "to": B})

    def take(self):
        rng, v, np = self.rng, self.v, self.np
        n = rng.choice([1, 1, 2, 3])
        A, B = [list(x) for x in zip(*[self.pair() for _ in range(n)])]
        newx = []
        if rng.random() < 0.3:
            A = [[[0, 0, 1], 1]]
            if rng.random() < 0.3:
                B[0] = [[0, 0, 1], 1]
            newx = [self.vec()]
            if rng.random() < 0.3 and B[0] == [[0, 0, 1], 1]:
                newx = [[-1, 0, 0]]
        elif n > 1 and rng.random() < 0.3:
            A = A[:1]
        fa, fb = len(A) == 1 and rng.random() < 0.7, len(B) == 1 and rng.random() < 0.7
        sa, sb = rng.choice([1, 3, 0.5]), rng.choice([1, 3, 0.5])
        args = [sa * self.arr([p[0] for p in A], fa), sb * self.arr([p[0] for p in B], fb)]
        unit = self.unit()
        single = fa and fb
        roll = [0]
        kw = {}
        if newx:
            kw["new_x"] = np.array(newx[0], dtype="f8") * rng.choice([1, 0.25])
            if rng.random() < 0.3:
                kw["new_x"] = kw["new_x"].tolist()
        elif rng.random() < 0.6:
            one = n == 1 or rng.random() < 0.5
            roll = self.stack(self.ang, 1 if one else n)
            kw["roll"] = self.angles(roll, unit, one)
        f = getattr(v, rng.choice(["a2b_rot", "a2b_rotm"]))
        self.call("take", lambda a, b: f(a, b, unit=unit, **kw), args, self.dmats, single=single and (not kw.get("roll", 0.0) is None) and np.ndim(kw.get("roll", 0.0)) == 0,
                  newx=newx, roll=roll, **{"from": A, "to": B})

    def conv(self):
        """degrees are whole, radians in 1/S"""
        rng, v, np = self.rng, self.v, self.np
        fr, to = self.unit(), self.unit()
        fr, to = rng.choice([fr, " " + fr.upper()]), rng.choice([to, to.upper()])
        k = fr.strip().lower()[0] + "2" + to.strip().lower()[0]
        vals = [rng.randrange(-720, 721) for _ in range(3)]
        arg = np.array(vals, dtype="f8") / (1 if k[0] == "d" else S)
        if k[0] == "r":
            vals = [100 * x for x in vals]
            arg = arg * 100
        f = getattr(v, rng.choice(["convert_angle", "convert_angles"]))
        self.call("conv", lambda a: f(a, fr, to), [arg], lambda r: [self.num(r, {"d2d": 1, "d2r": S, "r2r": S, "r2d": 1000}[k]), True], dir=k, vals=vals)

    def ortho(self):
        rng, v, np = self.rng, self.v, self.np
        m = np.zeros((3, 3))
        p = [0, 1, 2]
        rng.shuffle(p)
        for i in range(3):
            m[i, p[i]] = rng.choice([1, -1])
        bad = bool(round(np.linalg.det(m)) != 1)
        how = rng.choice(["raise", " Raise"])
        axes = rng.choice(EUL)
        f = rng.choice([lambda a: v.rot2angle(a, axes, bad_matrix=how), lambda a: v.rot2eul(a, axes, bad_matrix=how),
                        lambda a: v.dcm2angle(a, axes, bad_matrix=how), lambda a: v.dcm2eul(a, axes, bad_matrix=how),
                        lambda a: v.rot2wxyz(a, bad_matrix=how), lambda a: v.rot2axang(a, bad_matrix=how)])
        self.call("ortho", f, [m if rng.random() < 0.5 else np.array([np.eye(3), m])], lambda r: [0, True], bad=bad)


def drive(rec, tier, rng, shard, nshards, gen):
    r = Run(rec, rng)
    n = 150 if tier == "quick" else 2500
    for k in range(n):
        rec.begin("p37/%d" % k)
        for _ in range(4):
            r.to_mat()
            r.from_mat()
        for _ in range(2):
            r.cross()
            r.products()
            r.between()
            r.take()
        r.conv()
        r.ortho()
