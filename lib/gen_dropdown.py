"""Scenarios for Dropdown (O01)."""
TEXTS = ["", "a", "b", "First", "two words", " x ", "a"]


def texts(rng, ks):
    return [[k, rng.choice(TEXTS) if rng.random() < 0.5 else "t%d" % k] for k in ks]


def from_walk(rng, id, w):
    ops = [["mount", rng.random() < 0.3]] if rng.random() < 0.5 else []
    for o in w:
        if o[0] == "upd":
            ops.append(["upd", texts(rng, o[1])])
        else:
            ops.append([o[0], o[1]])
        if rng.random() < 0.03:
            ops.append(rng.choice([["mount", rng.random() < 0.3], ["unmount"]]))
    return dict(id=id, dom="dropdown", dflt=rng.random() < 0.5, ops=ops)


def scenario(rng, id, n=None):
    ops = []
    n = n or rng.choice([2, 4, 6])
    cur = []
    for _ in range(rng.choice([5, 10, 25])):
        k = rng.choices(["upd", "set", "user", "mount", "unmount"], [6, 3, 4, 1, 0.5])[0]
        if k == "upd":
            how = rng.choice(["any", "shuffle", "edit", "edit", "same", "none"])
            if how == "any":
                cur = rng.sample(range(1, n + 1), rng.randint(0, n))
            elif how == "shuffle":
                cur = rng.sample(cur, len(cur))
            elif how == "edit":
                cur = list(cur)
                for _ in range(rng.randint(1, 3)):
                    c = [x for x in range(1, n + 1) if x not in cur]
                    if c and rng.random() < 0.5:
                        cur.insert(rng.randint(0, len(cur)), rng.choice(c))
                    elif cur:
                        x = cur.pop(rng.randrange(len(cur)))
                        if rng.random() < 0.5:
                            cur.insert(rng.randint(0, len(cur)), x)
            elif how == "none" and rng.random() < 0.4:
                cur = []
            ops.append(["upd", texts(rng, cur)])
        elif k == "set":
            ops.append(["set", rng.randint(0, n + 1)])
        elif k == "user":
            ops.append(["user", rng.randrange(max(n, 6))])
        elif k == "mount":
            ops.append(["mount", rng.random() < 0.3])
        else:
            ops.append(["unmount"])
    return dict(id=id, dom="dropdown", dflt=rng.random() < 0.5, ops=ops)
