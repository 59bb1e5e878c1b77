"""Scenarios for VirtualizedList (L05)."""


def num(rng, n):
    k = rng.choice(["any", "any", "near", "zero", "big", "one"])
    if k == "any":
        return rng.randint(0, 120)
    if k == "near":
        return max(0, n + rng.randint(-30, 30))
    if k == "zero":
        return 0
    if k == "big":
        return rng.choice([500, 3000, 20000])
    return rng.randint(1, 5)


def scenario(rng, id):
    r = rng.choice([100, 400, 400, 1000])
    h = rng.choice([1, 5, 20, 20, 37, 50, 100, 200, 333, 450])
    h = max(h, r // 80)
    n = 0
    ops = []

    def nums():
        nonlocal n
        a = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            n = num(rng, n)
            a.append(n)
        return ["num", a]
    if rng.random() < 0.6:
        ops.append(nums())
    ops.append(["mount"])
    for _ in range(rng.choice([4, 8, 16])):
        k = rng.choices(["num", "scroll", "by", "size", "unmount", "mount"], [3, 4, 4, 0.3, 0.4, 0.8])[0]
        if k == "num":
            ops.append(nums())
        elif k == "scroll":
            ops.append(["scroll", rng.choice([0, 1000, rng.randint(0, 1000)])])
        elif k == "by":
            for _ in range(rng.choice([1, 1, 2, 5])):
                ops.append(["by", rng.choice([-1, 1]) * rng.choice([1, 10, h, r // 4, r, 2 * r, 3 * r])])
        elif k == "size":
            ops.append(["size", min(rng.choice([100, 400, 1000]), 80 * h)])
        else:
            ops.append([k])
    more = []
    if rng.random() < 0.2:
        more = [[rng.randint(0, 60), rng.choice([rng.randint(0, 200), 500])] for _ in range(rng.choice([1, 2]))]
    slow = []
    return dict(id=id, dom="virt", r=r, h=h, at=rng.choice([0, 0, 50]), pre=rng.choice([0, 0, 0, 30, 700, 5000]),
                post=rng.choice([0, 0, 0, 30, 700, 5000]), more=more, slow=slow, ops=ops, meta=dict(h=h, keep=not more))


def from_walk(id, w, c):
    """One unit of the model is 50 pixels."""
    ops = []
    for o in w:
        if o[0] == "num":
            ops.append(["num", [o[1]]])
        elif o[0] == "by":
            ops.append(["by", o[1] * 50])
        elif o[0] != "poke":
            ops.append([o[0]])
    return dict(id=id, dom="virt", r=400, h=c["H"] * 50, at=0, pre=c["P"] * 50, post=c["Q"] * 50, more=[], slow=[], ops=ops,
                meta=dict(h=c["H"] * 50, keep=True))
