"""Scenarios for the root executor (R01)."""


def from_walk(rng, id, w):
    """Edges of MC_Exec: actions inside of a poll become the script of that poll."""
    ops, prog, cur = [], {}, None
    depth = 0
    for o in w:
        k = o[0]
        if k == "->":
            continue
        if k == "poll":
            cur = o[1]
            prog.setdefault(cur, []).append([])
        elif k == "polled":
            if o[2]:
                prog[cur][-1].append(["done"])
            cur = None
        else:
            a = list(o)
            if k == "spawn" and rng.random() < 0.3:
                a[0] = "mount"
            if k == "run" and rng.random() < 0.5:
                a = ["disp"]
            (ops if cur is None else prog[cur][-1]).append(a)
    ops.append(["quiet"])
    return dict(id=id, dom="exec", core=False, prog=[[i, p] for i, p in sorted(prog.items())], ops=ops, meta=dict(core=False))


def scenario(rng, id, core=False, n=None, nt=None):
    nt = nt or rng.choice([1, 2, 3, 5])
    tasks = [0] if core else list(range(1, nt + 1))

    def act(top):
        i = rng.choice(tasks)
        c = [("wake", 6), ("sched", 1), ("run", 2), ("disp", 2)]
        if not core:
            c += [("spawn", 3), ("mount", 1.5), ("cancel", 0.7)]
        if top:
            c += [("timer", 5), ("quiet", 1)]
        k = rng.choices([x for x, _ in c], [y for _, y in c])[0]
        if k in ("sched", "run", "timer", "quiet"):
            return [k]
        if k == "disp":
            return ["disp"] + rng.sample(tasks, rng.choice([rng.randint(0, len(tasks)), min(len(tasks), 3)]))
        return [k, i]
    prog = []
    for i in tasks:
        polls = []
        for _ in range(rng.choice([0, 2, 6])):
            acts = [act(False) for _ in range(rng.choice([0, 0, 1, 1, 2, 4]))]
            if not core and rng.random() < 0.12:
                acts.append(["done"])
            polls.append(acts)
        prog.append([i, polls])
    if rng.random() < 0.03:
        # more wakes than the executor handles in one go
        i = rng.choice(tasks)
        prog = [p for p in prog if p[0] != i] + [[i, [[["wake", i]]] * rng.choice([150, 250, 450])]]
    ops = []
    first = [] if core else [[rng.choice(["spawn", "spawn", "mount"]), i] for i in tasks if rng.random() < 0.6]
    for _ in range(n or rng.choice([4, 10, 25])):
        ops.append(act(True))
    if core:
        ops.insert(0, rng.choice([["sched"], ["run"], ["timer"], ["sched"]]))
    ops = first + ops + [["quiet"]]
    if rng.random() < 0.5:
        i = rng.choice(tasks)
        ops += [["wake", i], ["quiet"]]
    return dict(id=id, dom="exec", core=core, prog=prog, ops=ops, meta=dict(core=core))
