"""P10  many-handle container (Bucket)"""
SPEC = "BucketTrace"
MC = [dict(name="bucket", module="BucketMC", cfg="BucketMC.cfg", gen=True)]
SHARDS = {"quick": 2, "thorough": 8}


class Thing(object):
    pass


def make_items(kind):
    import numpy as np
    if kind == "obj":
        return {"i%d" % i: Thing() for i in range(1, 6)}
    if kind == "mixed":     # hashable and unhashable items
        return {"i1": Thing(), "i2": [1, 2], "i3": np.arange(3), "i4": {"k": 1}, "i5": "an item string"}
    return {"i1": [0], "i2": [0], "i3": np.arange(3), "i4": np.arange(3), "i5": dict()}


def h2real(h):
    if h.startswith("#"):
        return int(h[1:])
    if h == "!u":
        return ["unhashable"]
    if h == "t":
        return ("tuple", 1)
    return h


def real2h(h):
    if isinstance(h, int):
        return "#%d" % h
    if h == ("tuple", 1):
        return "t"
    return h if isinstance(h, str) else repr(h)


HS = ["a", "b", "c", "t", "#0", "#1", "#2", "#3", "#4"]


def observe(b, its):
    names = {id(v): k for k, v in its.items()}
    o = {}
    o["items"] = [[names.get(id(it), "?"), [real2h(h) for h in hs]] for hs, it in b.items()]
    o["n"] = len(b)
    o["values"] = [names.get(id(it), "?") for it in b]
    if [id(x) for x in b] != [id(x) for x in b.items_as_list()] or [id(x) for x in b.values()] != [id(x) for x in b]:
        o["values"].append("items_as_list/values/iter disagree")
    if [list(k) for k in b.keys()] != [list(k) for k, _ in b.items()]:
        o["values"].append("keys/items disagree")
    o["prim"] = [real2h(h) for h in b.get_primary_handles()]
    o["hs"] = HS
    look, cont = [], []
    for h in HS:
        try:
            look.append(names.get(id(b[h2real(h)]), "?"))
        except KeyError:
            look.append("-")
        cont.append(bool(b.contains_handle(h2real(h))))
        if (h2real(h) in b) != cont[-1]:
            cont[-1] = "in disagrees"
    o["look"], o["cont"] = look, cont
    o["its"] = sorted(its)
    o["icont"] = [bool(b.contains_item(its[k])) for k in o["its"]]
    return o


def do(rec, b, its, a):
    op = a[0]
    ev = dict(op=op)
    fn = None
    if op == "set":
        ev.update(hs=a[1], it=a[2], idx=a[3], ar=a[4])
        hs = [h2real(h) for h in a[1]]
        variant = a[5] if len(a) > 5 else 0
        if variant == 1 and a[3] and not a[4] and len(hs) == 1 and hs[0] != ["unhashable"] \
                and not isinstance(hs[0], tuple):
            def fn(): b[hs[0]] = its[a[2]]
        elif variant == 1 and a[3] and not a[4]:
            def fn(): b[tuple(hs) if hs else None] = its[a[2]]
        elif variant == 2 and not hs:
            def fn(): b.set_item(None, its[a[2]], index_handle=a[3], _add_ref=a[4])
        else:
            def fn(): b.set_item(hs, its[a[2]], index_handle=a[3], _add_ref=a[4])
    elif op == "remitem":
        ev.update(it=a[1])
        if len(a) > 2 and a[2] == 1:
            def fn(): del b[its[a[1]]]
        else:
            def fn(): b.remove_item(its[a[1]])
    elif op == "remhandle":
        ev.update(h=a[1])
        if len(a) > 2 and a[2] == 1:
            def fn(): del b[h2real(a[1])]
        else:
            def fn(): b.remove_item_by_handle(h2real(a[1]))
    elif op == "remref":
        ev.update(it=a[1], k=a[2])
        def fn(): b.remove_reference(its[a[1]], _ref_count=a[2])
    elif op == "remrefh":
        ev.update(h=a[1], k=a[2])
        def fn(): b.remove_reference(h2real(a[1]), _ref_count=a[2])
    elif op == "clear":
        def fn(): b.remove_all_items()
    try:
        fn()
        ev["res"] = "ok"
    except (KeyError, ValueError, TypeError):   # refused: nothing there (TypeError: not even hashable)
        ev["res"] = "missing"
    except Exception as e:
        ev["res"] = "exc:" + type(e).__name__
    try:
        ev["obs"] = observe(b, its)
    except Exception as e:
        ev["res"] = "observe:" + type(e).__name__
        ev["obs"] = dict(items=[], n=-1, values=[], prim=[], look=[], cont=[], hs=[], its=[], icont=[])
    rec.ev(**ev)


def drive(rec, tier, rng, shard, nshards, gen):
    from viscid.bucket import Bucket
    import vharness
    import random
    # every transition of the exhaustive model
    kinds = ["obj", "mixed", "unh"]
    cap = 12000 if tier == "quick" else None
    seqs = list(vharness.tours(gen["bucket"], random.Random(rng.random() if cap else 7), max_events=cap, maxlen=40))
    for n, seq in enumerate(seqs):
        if not cap and n % nshards != shard:
            continue
        kind = kinds[n % 3]
        its = make_items(kind)
        rec.begin("tour/%d" % n, kind=kind, ordered=bool(n % 2))
        b = Bucket(ordered=bool(n % 2))
        for a in seq:
            a = list(a)
            if a[0] == "set":
                a.append(n % 4)
            elif a[0] in ("remitem", "remhandle"):
                if its.get(a[1]) is not its.get("i5"):
                    a.append(n % 2 if a[0] == "remhandle" else 0)
            do(rec, b, its, a)
    # longer random histories with more handles
    for n in range(60 if tier == "quick" else 400):
        kind = rng.choice(kinds)
        its = make_items(kind)
        ordered = rng.random() < 0.5
        rec.begin("random/%d" % n, kind=kind, ordered=ordered)
        b = Bucket(ordered=ordered)
        for _ in range(40):
            r = rng.random()
            it = rng.choice(sorted(its))
            if r < 0.55:
                k = rng.choice([0, 1, 1, 1, 2, 2, 3])
                hs = [rng.choice(["a", "b", "c", "t", "#0", "#3", "!u"]) for _ in range(k)]
                a = ["set", hs, it, rng.random() < 0.6, rng.random() < 0.5, rng.randrange(4)]
            elif r < 0.65:
                a = ["remitem", it]
            elif r < 0.75:
                a = ["remhandle", rng.choice(HS), rng.randrange(2)]
            elif r < 0.88:
                a = ["remref", it, rng.randrange(3)]
            elif r < 0.97:
                a = ["remrefh", rng.choice(HS), rng.randrange(1, 3)]
            else:
                a = ["clear"]
            do(rec, b, its, a)
