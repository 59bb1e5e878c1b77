"""Scenarios for the combinators (C01-C04)."""
SIZES = {"vec": [0, 1, 2, 2, 3, 3, 4, 5, 7, 31, 32, 33, 64, 65, 70, 128, 130, 257], "arr": [0, 1, 2, 2, 3, 3, 5, 8, 33, 64, 70, 130, 200],
         "tup": [1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]}
CORE = ["join", "try_join", "race", "race_ok"]


def pick_shape(rng, kind, n=None, small=False):
    while True:
        sh = rng.choice(["vec", "arr", "tup"])
        if n is None:
            k = rng.choice(SIZES[sh])
            if small and k > 5 or not small and k < 30 and rng.random() < .7:
                continue
        else:
            k = n
            if n not in SIZES[sh]:
                continue
        if sh == "tup" and k == 12 and kind in ("try_join", "race_ok"):
            continue
        return sh, k


def script(rng, c, i, n, kinds, siblings, endless=0.15):
    res = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        res.append(dict(r="pend", w=wakes(rng, c, i, siblings), nostore=rng.random() < .1))
    if rng.random() > endless:
        res.append(dict(r="ok" if rng.random() < kinds else "err", w=wakes(rng, c, i, siblings)))
    return res


def wakes(rng, c, i, siblings):
    x = rng.random()
    if x < .7:
        return []
    if x < .8:
        return [[c, i]]
    return [list(rng.choice(siblings)) for _ in range(rng.choice([1, 1, 2]))]


def inst(rng, counter, depth, kinds, small):
    counter[0] += 1
    c = counter[0]
    kind = rng.choice(kinds)
    fixed = {"meanwhile": 2, "pend_after": 1}.get(kind)
    if kind == "select":
        fixed = rng.choice([1, 2, 3, 4])
    if fixed is None:
        sh, n = pick_shape(rng, kind, small=small)
    else:
        sh, n = rng.choice(["tup", "unit"]), fixed
    d = dict(c=c, kind=kind, shape=sh, fresh=rng.random() < .5, aw=kind in ("meanwhile",) and rng.random() < .5 or rng.random() < .2, kids=[])
    if kind == "select":
        d["aw"] = True
    sib = [(c, i) for i in range(n)]
    p_ok = {"join": .5, "try_join": .9, "race": .5, "race_ok": .1}.get(kind, .5)
    if rng.random() < .2:
        p_ok = .5
    if n > 6 and kind in ("try_join", "race_ok"):
        p_ok = 1.0 if kind == "try_join" else 0.0
        if rng.random() < .5:
            p_ok = abs(p_ok - 1.0 / n)
    endless = 0.02 if n > 6 else .15
    if n > 6 and kind in ("race",):
        endless = .95
    if n > 6 and rng.random() < .5:
        endless = 1 - rng.choice([0, 0, 1]) / n
    for i in range(n):
        if depth > 0 and n <= 5 and rng.random() < .3:
            d["kids"].append(inst(rng, counter, depth - 1, kinds, True))
        else:
            d["kids"].append(dict(s=script(rng, c, i, n, p_ok, sib, endless)))
    return d


def insts(d):
    yield d
    for k in d["kids"]:
        if "s" not in k:
            yield from insts(k)


def meta(top):
    return dict(insts=[[d["c"], d["kind"], len(d["kids"]), bool(d["aw"])] for d in insts(top)])


def scenario(rng, sid, kinds, small=True, depth=None):
    top = inst(rng, [0], rng.choice([0, 0, 1, 2]) if depth is None else depth, kinds, small)
    leaves = [(d["c"], i) for d in insts(top) for i, k in enumerate(d["kids"])]
    few = rng.sample(leaves, min(len(leaves), 3))
    ops = []
    n = rng.choice([6, 12, 24]) if small else rng.choice([20, 60, 150])
    w = 1
    for _ in range(n):
        x = rng.random()
        if not ops or x < .45 or not leaves:
            if rng.random() < .4:
                w = rng.choice([1, 2, 3])
            ops.append(dict(op="poll", w=w))
        elif x < .96:
            burst = rng.choice([1, 1, 1, 2, 3]) if small else rng.choice([1, 1, 2, 5, 40])
            # biased to few children so that something goes on for them
            pool = few if rng.random() < .3 else leaves if rng.random() < .7 else rng.sample(leaves, max(1, len(leaves) // 2))
            for _ in range(burst):
                c, i = rng.choice(pool)
                ops.append(dict(op="wake", c=c, i=i, byval=rng.random() < .5))
        elif x < .98:
            ops.append(dict(op="dropw"))
        else:
            ops.append(dict(op="drop"))
    if rng.random() < .8:
        # drive towards completion
        for _ in range(rng.choice([1, 3])):
            for c, i in rng.sample(leaves, len(leaves)):
                ops.append(dict(op="wake", c=c, i=i, byval=False))
                if rng.random() < (.3 if small else .02):
                    ops.append(dict(op="poll", w=w))
            ops.append(dict(op="poll", w=w))
    return dict(id=sid, dom="comb", comb=top, ops=ops, meta=meta(top))


def from_walk(rng, sid, walk, n):
    """A walk of MC_Comb becomes scripts for the children and operations of the environment."""
    kind = walk[0].get("kind", "join")
    sh, _ = pick_shape(rng, kind, n)
    scripts = [[] for _ in range(n)]
    ops, cur, buf = [], None, []
    for e in walk:
        o = e["op"]
        if o == "poll":
            ops.append(dict(op="poll", w=e["w"]))
        elif o == "cstart":
            cur, buf = e["i"], []
        elif o == "wake":
            if cur is None:
                ops.append(dict(op="wake", c=1, i=e["i"], byval=rng.random() < .5))
            else:
                buf.append([1, e["i"]])
        elif o == "cend":
            scripts[cur].append(dict(r=e["r"], w=buf))
            cur = None
        elif o == "drop":
            ops.append(dict(op="drop"))
    top = dict(c=1, kind=kind, shape=sh, fresh=False, aw=False, kids=[dict(s=s) for s in scripts])
    return dict(id=sid, dom="comb", comb=top, ops=ops, meta=meta(top))
