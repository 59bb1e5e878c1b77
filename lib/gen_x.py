"""Scenario generators for x-bow and the waker utilities (C: harness 'xbow')."""
import core

SUB = ("struct", {"x": "i", "y": "i", "w": ("vec", "i")})
EN = ("enum", {0: {"A0": "i", "A1": "i"}, 1: {"Bp": SUB, "Bq": "i"}, 2: {}, 3: {"D0": SUB}, 4: {"Ep": "i", "Eq": SUB},
               5: {"F0": "i", "F1": "i", "F2": "i"}, 6: {"G0": "skip", "G1": "i", "G2": ("leaf", SUB), "G3": "i"},
               7: {"Hp": "skip", "Hq": "i", "Hr": ("leaf", SUB), "Hs": "i"},
               8: {"K0": "i", "K1": "skip", "K2": "i", "K3": "skip", "K4": "i"}})
MIX = ("struct", {"t0": "skip", "t1": SUB, "t2": "skip", "t3": "i", "t4": ("opt", "i")})
REC = ("rec",)          # {v, next: Option<Box<Rec>>}
REC_ = ("struct", {"v": "i", "next": ("opt", ("box", REC))})
T12 = ("struct", {"t%d" % i: SUB if i == 10 else "i" for i in range(12)})
GEN = ("struct", {"hidden": "skip", "g": SUB, "h": "leafvec", "k": "i"})
TUP = ("struct", {"t0": "i", "t1": SUB, "t2": "i"})
ROOT = ("struct", {
    "a": "i", "b": "i", "s": SUB, "e": EN, "v": ("vec", SUB), "m": ("map", ["0", "1", "7"], SUB),
    "n": ("map", ["a", "ab", "b"], ("vec", "i")), "o": ("opt", SUB), "bx": ("box", SUB),
    "t": ("struct", {"t0": "i", "t1": SUB}), "rc": ("rc", SUB), "g": GEN, "u": TUP, "vv": ("vec", ("vec", "i")),
    "oo": ("opt", ("opt", "i")), "rec": REC, "tt": T12, "mx": MIX, "st": ("box", "str")})
# how often in a row: a handful, and around where counters may wrap
REPS = [2, 3, 100, 128, 255, 256, 257, 512, 999, 1000, 1024, 4096, 10000, 16384, 32768, 65535, 65536, 65537]


def reps(rng, heard=1, **kw):
    """writing large parts is slow, so only accesses that write little and that few listen to are repeated very often"""
    most = 512 if kw.get("how") in ("set", "guard", "quiet") else 2 ** 17 if heard <= 16 else 2 ** 20 // heard
    return dict(kw, rep=rng.choice([r for r in REPS if r <= most])) if rng.random() < 0.06 else kw


SPARSE = [3, 4, 127, 128, 255, 256, 257, 258, 65535, 65536, 65537, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 48 + 2]


def rand_val(rng, ty, size=2):
    """list of [relpath, int]"""
    def under(s, v):
        return [[[s] + p, i] for p, i in v]
    if ty in ("i", "skip", "str"):
        return [[[], rng.randint(0, 9)]]
    if ty == "leafvec":
        ty = ("vec", "i")
    k = ty[0]
    if k == "rec":
        ty, k = REC_, "struct"
    if k == "struct":
        return [e for n, t in ty[1].items() for e in under(n, rand_val(rng, t, size))]
    if k == "vec":
        n = rng.randint(0, size)
        return [[[], n]] + [e for i in range(n) for e in under(str(i), rand_val(rng, ty[1], size))]
    if k == "map":
        ks = [x for x in ty[1] if rng.random() < 0.5]
        return [[[], len(ks)]] + [e for x in ks for e in under(x, rand_val(rng, ty[2], size))]
    if k == "opt":
        if rng.random() < 0.4:
            return [[[], 0]]
        return [[[], 1]] + under("S", rand_val(rng, ty[1], size))
    if k == "leaf":
        return rand_val(rng, ty[1], size)
    if k == "box":
        return under("c", rand_val(rng, ty[1], size))
    if k == "rc":
        return [[[], 0]] + under("c", rand_val(rng, ty[1], size))
    if k == "enum":
        tag = rng.choice(list(ty[1]))
        return [[[], tag]] + [e for n, t in ty[1][tag].items() for e in under(n, rand_val(rng, t, size))]
    raise ValueError(ty)


def kids(ty):
    if ty in ("i", "skip", "leafvec", "str"):
        return {}
    k = ty[0]
    if k == "rec":
        return kids(REC_)
    if k == "struct":
        return {n: t for n, t in ty[1].items() if t != "skip"}
    if k == "vec":
        return {str(i): ty[1] for i in range(3)}
    if k == "map":
        return {x: ty[2] for x in ty[1]}
    if k == "leaf":
        return {}
    if k == "opt":
        return {"S": ty[1]}
    if k in ("box", "rc"):
        return {"c": ty[1]}
    if k == "enum":
        return {n: t for d in ty[1].values() for n, t in d.items() if t != "skip"}


def down(t, s):
    """type of the part s of a t; containers also have names for parts that are not there"""
    if t[0] == "vec":
        return t[1]
    if t[0] == "map":
        return t[2]
    return kids(t)[s]


def sparse(rng, t):
    if t[0] == "vec":
        return str(rng.choice(SPARSE))
    if t[0] == "map":
        if t[1][0].isdigit():
            return str(rng.choice([x for x in SPARSE if x < 2 ** 32]))
        return rng.choice(["", "aa", "aab", "B", "c" * 40])


def type_at(p):
    t = ROOT
    for s in p:
        t = down(t, s)
    return t


def rand_path(rng, start=(), stop=0.15):
    p = list(start)
    t = type_at(p)
    while True:
        ks = kids(t)
        if not ks or (p and rng.random() < stop):
            return p
        s = rng.choice(sorted(ks))
        if t[0] in ("vec", "map") and rng.random() < 0.12:
            s = sparse(rng, t)
        p.append(s)
        t = down(t, s)


def pool(rng, stores):
    """a handful of related paths: a few deep ones, their prefixes, siblings of them"""
    ps = set()
    for _ in range(rng.randint(1, 3)):
        st = rng.choice(stores)
        p = rand_path(rng, stop=0.08)
        for i in range(len(p) + 1):
            ps.add((st,) + tuple(p[:i]))
        for _ in range(2):
            i = rng.randint(0, max(0, len(p) - 1))
            q = rand_path(rng, p[:i], 0.6)
            ps.add((st,) + tuple(q))
    # names a listener may be confused by
    for p in sorted(ps):
        ds = [i for i, x in enumerate(p) if i and x.isdigit()]
        if ds and rng.random() < 0.3:
            i = rng.choice(ds)
            n = int(p[i]) + rng.choice([2 ** 7, 2 ** 8, 2 ** 16, 2 ** 32]) * (1 if type_at(p[1:i])[0] == "vec" else 0)
            ps.add(p[:i] + (str(n),) + p[i + 1:])
            ps.add(p[:i] + (str(n),))
    if len(stores) > 1 and rng.random() < 0.6:
        for p in sorted(ps):
            if rng.random() < 0.5:
                ps.add((rng.choice(stores),) + p[1:])
    return sorted(ps)


def nav_of(rng, p):
    """use index_shallow for some Vec indices"""
    out, t = [p[0]], ROOT
    for s in p[1:]:
        shallow = t[0] in ("vec", "box") or t[0] == "map" and t[1][0].isdigit()
        out.append("s" + s if shallow and t != ("box", REC) and t != ("box", "str") and rng.random() < 0.3 else s)
        t = down(t, s)
    return out


def bindable(p):
    return p[1:] != () and len(p) > 1


def store_scenario(rng, sid, kinds, nops, weights=None, hows=("set", "guard", "touch", "quiet", "notify")):
    stores = ["1"] if rng.random() < 0.6 else ["1", "2"]
    ps = pool(rng, stores)
    ops, live, nid = [], {}, 0
    w = dict(new=3, poll=6, drop=1.2, acc=6, see=1, open=0, feed=0, share=0.15, act=0)
    if "fea" in kinds:
        w["open"] = 1.5
        w["act"] = 1
    if "bind" in kinds:
        w["feed"] = 3
    w.update(weights or {})
    names, ws = list(w), list(w.values())
    maxl = rng.choice([2, 3, 4, 8])
    nw = rng.choice([1, 2, 4])

    def pathop(p):
        return dict(p=list(p), nav=nav_of(rng, p), cut=rng.randint(0, len(p) - 1), route=rng.choice([0, 0, 1, 2, 3, 4]))
    while len(ops) < nops:
        o = rng.choices(names, ws)[0]
        ids = list(live)
        if o == "new":
            if len(live) >= maxl:
                continue
            nid += 1
            k = rng.choice(kinds)
            p = rng.choice(ps)
            if k == "bind" and p[1:] == () or k in ("bind", "signal") and p[1:] == ("st", "c"):
                continue
            live[nid] = (k, p)
            ops.append(dict(op="new", id=nid, kind=k, fire=rng.random() < 0.6, **pathop(p)))
            if rng.random() < 0.5:
                ops.append(dict(op="poll", id=nid, w=rng.randint(1, nw)))
        elif o == "poll" and ids:
            ops.append(dict(op="poll", id=rng.choice(ids), w=rng.randint(1, nw)))
        elif o == "drop" and ids:
            i = rng.choice(ids)
            del live[i]
            ops.append(dict(op="drop", id=i))
        elif o == "acc":
            p = rng.choice(ps)
            how = rng.choice(list(hows))
            v = rand_val(rng, type_at(p[1:])) if how in ("set", "guard", "quiet") else []
            ops.append(dict(op="acc", **reps(rng, len(live), how=how, val=v, **pathop(p))))
        elif o == "see":
            ops.append(dict(op="see", how=rng.randint(0, 1), **pathop(rng.choice(ps))))
        elif o == "open":
            c = [i for i in ids if live[i][0] == "fea"]
            if c:
                i = rng.choice(c)
                ops.append(dict(op="open", id=i))
                if rng.random() < 0.5:
                    ops.append(dict(op="poll", id=i, w=rng.randint(1, nw)))
        elif o == "act":
            c = [i for i in ids if live[i][0] == "fea"]
            if c:
                p = live[rng.choice(c)][1] if rng.random() < 0.4 else rng.choice(ps)
                how = rng.choice(list(hows))
                v = rand_val(rng, type_at(p[1:])) if how in ("set", "guard", "quiet") else []
                i = rng.choice(c)
                ops.append(dict(op="act", id=i, when=rng.choice(["poll", "poll", "drop"]), how=how, val=v, **pathop(p)))
                if rng.random() < 0.5:
                    ops.append(dict(op="poll", id=i, w=rng.randint(1, nw)))
        elif o == "feed":
            c = [i for i in ids if live[i][0] == "bind"]
            if c:
                i = rng.choice(c)
                n = rng.choice([0, 1, 1, 1, 2, 3])
                end = rng.random() < (0.15 if n else 1)
                ops.append(dict(op="feed", id=i, vals=[rand_val(rng, type_at(live[i][1][1:])) for _ in range(n)], end=end))
                if rng.random() < 0.6:
                    ops.append(dict(op="poll", id=i, w=rng.randint(1, nw)))
        elif o == "share":
            ops.append(dict(op=rng.choice(["share", "unshare"]), st=1))
    init = [rand_val(rng, ROOT, 1 if len(stores) > 1 else 2) for _ in stores]
    return dict(id=sid, dom="store", init=init, ops=ops)


def val_with(rng, ty, path):
    """a value in which the part at path exists"""
    if not path or ty in ("i", "skip", "leafvec", "str"):
        return rand_val(rng, ty)
    s, rest = path[0], path[1:]
    k = ty[0]
    if k == "rec":
        ty, k = REC_, "struct"

    def under(n, v):
        return [[[n] + p, i] for p, i in v]

    def kid(n, t):
        return under(n, val_with(rng, t, rest) if n == s else rand_val(rng, t))
    if k == "struct":
        return [e for n, t in ty[1].items() for e in kid(n, t)]
    if k == "vec":
        n = max(int(s) + 1, rng.randint(0, 3))
        return [[[], n]] + [e for i in range(n) for e in kid(str(i), ty[1])]
    if k == "map":
        ks = [x for x in ty[1] if x == s or rng.random() < 0.5]
        return [[[], len(ks)]] + [e for x in ks for e in kid(x, ty[2])]
    if k == "opt":
        return [[[], 1]] + kid("S", ty[1])
    if k == "box":
        return kid("c", ty[1])
    if k == "rc":
        return [[[], 0]] + kid("c", ty[1])
    if k == "enum":
        tag = next(t for t in ty[1] if s in ty[1][t])
        return [[[], tag]] + [e for n, t in ty[1][tag].items() for e in kid(n, t)]
    raise ValueError(ty)


def all_paths(ty=ROOT, rec=0):
    res = [()]
    if ty == REC:
        if rec >= 2:
            return res
        rec += 1
    for n, t in kids(ty).items():
        if ty[0] == "vec" and n == "2":
            continue
        res += [(n,) + q for q in all_paths(t, rec)]
    return res


def sweep(rng, kinds, hows):
    """for every path of the data type: listeners around it, accesses to it, its relatives, and to where it is not"""
    paths = all_paths()
    res = []
    for j, q in enumerate(paths):
        rel = [q[:i] for i in range(len(q) + 1)]
        sib = [x for x in paths if len(x) == len(q) and x[:-1] == q[:-1] and x != q] if q else []
        rel += rng.sample(sib, min(3, len(sib)))
        ch = [x for x in paths if len(x) > len(q) and x[:len(q)] == q]
        rel += rng.sample(ch, min(2, len(ch)))
        rel += rng.sample(paths, 1)
        ops = []

        def op(p):
            p = ("1",) + p
            return dict(p=list(p), nav=nav_of(rng, p), cut=rng.randint(0, len(p) - 1), route=rng.choice([0, 1, 2, 3, 4]))
        n = 0
        for p in rel:
            for k in rng.sample(sorted(set(kinds)), min(len(set(kinds)), 2)):
                if k in ("bind", "signal") and p == ("st", "c") or k == "bind" and p == ():
                    continue
                n += 1
                ops.append(dict(op="new", id=n, kind=k, fire=True, **op(p)))
        def polls():
            return [dict(op="poll", id=i, w=1 + i % 2) for i in range(1, n + 1)]
        ops += polls()
        for p in [q] + rng.sample(rel, min(3, len(rel))) + rng.sample(sib, min(2, len(sib))) + [q]:
            how = rng.choice(hows)
            v = [] if how not in ("set", "guard", "quiet") else rand_val(rng, type_at(p)) if len(p) < len(q) else val_with(rng, type_at(p), q[len(p):] if q[:len(p)] == p else ())
            ops.append(dict(op="acc", how=how, val=v, **op(p)))
            ops.append(dict(op="see", how=rng.randint(0, 1), **op(rng.choice([q, p] + rel))))
            ops += polls()
        ops.append(dict(op="see", how=0, **op(q)))
        res.append(dict(id="sw%d" % j, dom="store", init=[val_with(rng, ROOT, q)], ops=ops))
    return res


def crowd(rng, sid, kinds, n=160):
    """listeners at very many keys or indices of one container; some of the parts change"""
    at = rng.choice([("m",), ("n",), ("v",), ("vv",), ("g", "h")][:4])
    kinds = [k for k in kinds if k in ("until", "bub", "foreach")] or ["until"]
    names = list(range(n)) if at != ("n",) else ["".join(rng.choice("ab01") for _ in range(rng.randint(0, 9))) for _ in range(n)]
    names = sorted(set(str(x) for x in names))
    if at != ("n",) and rng.random() < .5:
        names = sorted({str(rng.choice([2 ** 32 - 1 - i, i * 256, i * 65536]) % 2 ** 32) for i in range(n)})

    def op(x):
        p = ["1"] + list(at) + [x]
        return dict(p=p, nav=p, cut=rng.randint(0, len(p) - 1), route=rng.choice([0, 1, 2, 3, 4]))
    ops = []
    for i, x in enumerate(names):
        ops.append(dict(op="new", id=i + 1, kind=rng.choice(kinds), fire=True, **op(x)))
        ops.append(dict(op="poll", id=i + 1, w=i + 1))
    for x in rng.sample(names, len(names) // 2):
        ops.append(dict(op="acc", how="notify", val=[], **op(x)))
    ops += [dict(op="poll", id=i + 1, w=i + 1) for i in range(len(names))]
    for i in rng.sample(range(len(names)), len(names) // 2):
        ops.append(dict(op="drop", id=i + 1))
    for x in rng.sample(names, 5):
        ops.append(dict(op="acc", how="notify", val=[], **op(x)))
    return dict(id=sid, dom="store", init=[rand_val(rng, ROOT, 0)], ops=ops)


def twins(rng, sid, kinds, at):
    """listeners at indices or keys of one container that differ in one bit, or in little; each of some changes in turn"""
    kinds = [k for k in kinds if k in ("until", "bub", "foreach")] or ["until"]
    t = type_at(at)
    if t[0] == "map" and not t[1][0].isdigit():
        long = "".join(rng.choice("ab") for _ in range(70))
        names = {"", "a", "A", "aa", "a ", " a", "b", "ab", "ba", "aab", "0", "00", "\u00e4", "\u00c4"}
        names |= {long[:i] for i in (7, 8, 9, 15, 16, 17, 32, 33, 64, 65)} | {long[:i] + c for i in (7, 8, 15, 16, 32, 64) for c in "cd"}
        names |= {"c" + long[i:] for i in (5, 6, 38)} | {"d" + long[i:] for i in (5, 6, 38)}
    else:
        bits = 63 if t[0] == "vec" else 31
        j = rng.choice([0, 1, 2, 5, 200])
        names = {str(j ^ (1 << k)) for k in range(bits)} | {str(j), str(j ^ 0x101), str(j ^ 0x10001)}
    names = sorted(names)
    sub = [n for n in kids(down(t, names[0]))][:1]

    def op(x, ext=()):
        p = ["1"] + list(at) + [x] + list(ext)
        return dict(p=p, nav=p, cut=rng.randint(0, len(p) - 1), route=rng.choice([0, 1, 2, 3, 4]))
    ops, n = [], 0
    for x in names:
        for ext in ([], sub) if sub and rng.random() < .3 else ([],):
            n += 1
            ops.append(dict(op="new", id=n, kind=rng.choice(kinds), fire=True, **op(x, ext)))
            ops.append(dict(op="poll", id=n, w=n))
    some = rng.sample(names, 3) + ([str(j)] if t[0] == "vec" or t[1][0].isdigit() else ["a"])
    for x in some:
        ops.append(dict(op="acc", how="notify", val=[], **op(x, sub if rng.random() < .3 else [])))
        ops += [dict(op="poll", id=i, w=i) for i in range(1, n + 1)]
    return dict(id=sid, dom="store", init=[rand_val(rng, ROOT, 0)], ops=ops)


TWINS = [("v",), ("m",), ("n",), ("vv",), ("vv", "1"), ("n", "a"), ("s", "w"), ("v", "0", "w"), ("m", "1", "w")]


def deep_scenario(rng, sid, kinds, nops):
    """paths of up to some hundred segments, into recursive data"""
    depth = rng.choice([3, 10, 21, 42, 43, 85, 86, 90])
    def node(k):
        return (("1", "rec") + ("next", "S", "c") * k)
    ps = [("1",), ("1", "rec"), node(depth), node(depth) + ("v",), node(depth - 1) + ("next",), node(depth + 1)]
    ps += [node(rng.randint(0, depth)) + rng.choice([(), ("v",), ("next",), ("next", "S")]) for _ in range(4)]
    init = [e for e in rand_val(rng, ROOT, 0) if e[0][0] != "rec"]
    p = ["rec"]
    for i in range(depth):
        init += [[p + ["v"], i % 10], [p + ["next"], 1]]
        p = p + ["next", "S", "c"]
    init += [[p + ["v"], 3], [p + ["next"], 0]]
    ops, live = [], {}
    while len(ops) < nops:
        r = rng.random()
        if r < 0.3 and len(live) < 6:
            i = len(live) + 1
            live[i] = rng.choice([k for k in kinds if k not in ("bind", "fea")] or ["until"])
            p = rng.choice(ps)
            ops.append(dict(op="new", id=i, kind=live[i], fire=True, p=list(p), nav=list(p), cut=0, route=0))
            ops.append(dict(op="poll", id=i, w=1))
        elif r < 0.6 and live:
            ops.append(dict(op="poll", id=rng.choice(list(live)), w=rng.randint(1, 2)))
        elif r < 0.95:
            p = rng.choice(ps)
            how = rng.choice(["set", "touch", "notify"]) if p[-1] == "v" else rng.choice(["touch", "notify"])
            ops.append(dict(op="acc", how=how, val=[[[], rng.randint(0, 9)]] if how == "set" else [], p=list(p), nav=list(p), cut=0, route=0))
        elif live:
            ops.append(dict(op="drop", id=live.popitem()[0]))
    return dict(id=sid, dom="store", init=[init], ops=ops)




def mc_store_scenario(rng, sid, walk):
    """a walk of MC_XStore on the real data type: e = C, v empty, a = 0, the rest arbitrary"""
    init = [e for e in rand_val(rng, ROOT, 0) if e[0][0] not in ("e", "v", "a")]
    init += [[["e"], 2], [["v"], 0], [["a"], 0]]
    ops = []
    for o in walk:
        o = dict(o)
        if "act" in o:
            a = o.pop("act")
            ops.append(dict(op="act", id=o["id"], when="poll", nav=a["p"], cut=rng.randint(0, len(a["p"]) - 1), route=rng.choice([0, 1, 2, 3, 4]), **a))
        if "p" in o:
            o.update(nav=o["p"], cut=rng.randint(0, max(0, len(o["p"]) - 1)), route=rng.choice([0, 1, 2, 3, 4]))
        ops.append(o)
    return dict(id=sid, dom="store", init=[init], ops=ops)


def arena_scenario(rng, sid, nops, maxl=None, maxs=None):
    lists, slots, where = {}, {}, {}
    nl = ns = 0
    ops = []
    phase = 1 if maxl else 0
    maxl = maxl or rng.choice([1, 2, 4, 9])
    maxs = maxs or rng.choice([2, 5, 12, 40])
    while len(ops) < nops:
        if rng.random() < (.01 if maxs > 99 else .08):
            phase = rng.choice([-1, 0, 1])
        r = rng.random()
        if (r < 0.12 or not lists) and len(lists) < maxl:
            nl += 1
            lists[nl] = []
            ops.append(dict(op="mklist", l=nl))
        elif r < 0.45 + 0.25 * phase and lists and len(where) < maxs:
            ns += 1
            k = rng.choice(list(lists))
            lists[k].append(ns)
            where[ns] = k
            ops.append(dict(op="add", l=k, s=ns))
            if rng.random() < 0.7:
                ops.append(dict(op="upd", s=ns, w=rng.randint(1, 5)))
        elif r < 0.6 and where:
            ops.append(dict(op="upd", s=rng.choice(list(where)), w=rng.randint(1, 5)))
        elif r < 0.88 and where:
            # first / last / any
            k = rng.choice([x for x in lists if lists[x]])
            i = rng.choice([0, -1, rng.randrange(len(lists[k]))])
            s = lists[k].pop(i)
            del where[s]
            ops.append(dict(op="rm", s=s))
        elif lists:
            e = [x for x in lists if not lists[x]]
            k = rng.choice(e) if e and rng.random() < 0.7 else rng.choice(list(lists))
            ops.append(dict(op="rmlist", l=k))
            if not lists[k]:
                del lists[k]
    return dict(id=sid, dom="arena", nw=5, ops=ops)


def arena_churn(rng, sid, rounds):
    """long add/remove churn at a bounded population: memory must stay bounded"""
    ops = [dict(op="mklist", l=1)]
    s = 0
    k = rng.randint(1, 6)
    for r in range(rounds):
        ids = []
        for _ in range(k):
            s += 1
            ids.append(s)
            ops.append(dict(op="add", l=1, s=s))
            ops.append(dict(op="upd", s=s, w=rng.randint(1, 5)))
        rng.shuffle(ids)
        for i in ids:
            ops.append(dict(op="rm", s=i))
        if r % 3 == 0:
            ops.append(dict(op="rmlist", l=1))
            ops.append(dict(op="mklist", l=1))
    return dict(id=sid, dom="arena", nw=5, ops=ops)


def cell_scenario(rng, sid, nops, maxl=None):
    ops, live, nid = [], [], 0
    nw = maxl or rng.choice([1, 2, 4])
    maxl = maxl or rng.choice([1, 2, 4, 9])
    init = rng.randint(0, 3)
    while len(ops) < nops:
        o = rng.choices(["new", "poll", "drop", "set", "read", "clone"], [2, 6, 1.2, 4, 0.5, 0.3])[0]
        if o == "new" and len(live) < maxl:
            nid += 1
            live.append(nid)
            ops.append(dict(op="new", id=nid, kind=rng.choice(["until", "until", "foreach"])))
        elif o == "poll" and live:
            ops.append(dict(op="poll", id=rng.choice(live), w=rng.randint(1, nw), **{"as": rng.random() < 0.5}))
        elif o == "drop" and live:
            i = rng.choice(live)
            live.remove(i)
            ops.append(dict(op="drop", id=i))
        elif o == "set":
            ops.append(dict(op="set", **reps(rng, len(live), v=rng.randint(0, 9), how=rng.randint(0, 1), nop=rng.random() < 0.2)))
        elif o in ("read", "clone"):
            ops.append(dict(op=o))
    return dict(id=sid, dom="cell", init=init, ops=ops, meta=dict(init=init))
