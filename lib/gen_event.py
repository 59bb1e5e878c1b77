"""Scenarios for event futures and streams (E01, E02)."""
# event type -> class of the object browsers create for it
ELEMENT = {
    "cancel": "Event", "error": "Event", "scroll": "Event", "securitypolicyviolation": "SecurityPolicyViolationEvent",
    "select": "Event", "wheel": "WheelEvent",
    "compositionend": "CompositionEvent", "compositionstart": "CompositionEvent", "compositionupdate": "CompositionEvent",
    "blur": "FocusEvent", "focus": "FocusEvent", "focusin": "FocusEvent", "focusout": "FocusEvent",
    "fullscreenchange": "Event", "fullscreenerror": "Event", "keydown": "KeyboardEvent", "keyup": "KeyboardEvent",
    "auxclick": "PointerEvent", "click": "PointerEvent", "contextmenu": "PointerEvent", "dblclick": "MouseEvent",
    "mousedown": "MouseEvent", "mouseenter": "MouseEvent", "mouseleave": "MouseEvent", "mousemove": "MouseEvent",
    "mouseout": "MouseEvent", "mouseover": "MouseEvent", "mouseup": "MouseEvent",
    "touchcancel": "TouchEvent", "touchend": "TouchEvent", "touchmove": "TouchEvent", "touchstart": "TouchEvent",
    "input": "InputEvent", "change": "Event", "drag": "DragEvent", "dragend": "DragEvent", "dragenter": "DragEvent",
    "dragleave": "DragEvent", "dragover": "DragEvent", "dragstart": "DragEvent", "drop": "DragEvent", "load": "Event",
}
NAMES = sorted(ELEMENT)


class Gen:
    def __init__(self, rng, every=None, ns=6):
        self.ns = ns        # streams are chosen among so many
        self.rng = rng
        self.parents = [-1]
        for i in range(rng.choice([0, 1, 3])):
            self.parents.append(rng.choice([-1, rng.randrange(len(self.parents))]))
        # few types, so that streams and events meet
        self.types = [every] if every else rng.sample(NAMES, rng.choice([1, 2, 3]))
        self.direct = self.appn = 0

    def stream(self):
        r = self.rng
        return dict(tgt=r.randrange(len(self.parents)), ty=r.choice(self.types), raw=r.random() < 0.25, fut=r.random() < 0.5,
                    cap=r.choice([0, 0, 0, 1, 2]), pas=r.choice([0, 0, 0, 1, 2]), ord=r.randrange(8))

    def disp(self):
        r = self.rng
        ty = r.choice(self.types)
        return ["disp", r.randrange(len(self.parents)), ty, ELEMENT[ty], r.random() < 0.5, r.random() < 0.6]

    def act(self, top):
        r = self.rng
        c = [("disp", 6), ("new", 2 if top else 0.6), ("poll", 5 if top else 1), ("drop", 1 if top else 0.4), ("mount", 1 if top else 0.1),
             ("unmount", 0.3), ("timers", 3 if top else 0)]
        k = r.choices([x for x, _ in c], [y for _, y in c])[0]
        if k == "disp":
            return self.disp()
        if k == "new":
            return ["new", self.stream()]
        if k == "poll":
            return ["poll", r.randrange(self.ns), r.choice([1, 1, 2, 3])]
        if k == "drop":
            return ["drop", r.randrange(self.ns)]
        if k == "mount":
            self.appn += 1
            return ["mount", self.appn, [self.strand() for _ in range(r.choice([1, 1, 2, 3]))]]
        if k == "unmount":
            return ["unmount", r.randint(1, max(1, self.appn))]
        return ["timers"]

    def strand(self):
        r = self.rng
        mode = r.choice(["stream", "future"])
        acts = []
        for _ in range(r.choice([1, 3, 6])):
            a = []
            if r.random() < 0.4:
                a.append(["prevent"])
            if r.random() < 0.25 and self.appn < 6:
                a.append(self.act(False))
            if r.random() < 0.08:
                a.append(["stop"])
            acts.append(a)
        return dict(mode=mode, on=[self.stream() for _ in range(1 if mode == "stream" else r.choice([1, 1, 2, 3]))], acts=acts)


def scenario(rng, id, every=None):
    g = Gen(rng, every)
    ops = []
    k = rng.choice(["direct", "app", "both", "both"])
    if k != "app":
        ops += [["new", g.stream()] for _ in range(rng.choice([1, 2, 3]))]
        ops += [["poll", rng.randrange(4), rng.randint(1, 2)] for _ in range(rng.randint(0, 3))]
    if k != "direct":
        g.appn += 1
        ops += [["mount", g.appn, [g.strand() for _ in range(rng.choice([1, 2]))]]]
        if rng.random() < 0.8:
            ops.append(["timers"])
    for _ in range(rng.choice([6, 12, 30])):
        ops.append(g.act(True))
    return dict(id=id, dom="event", parents=g.parents, ops=ops)


def crowd(rng, id, n):
    """many streams, most of them for the same events of the same target"""
    g = Gen(rng, rng.choice(NAMES), n)
    g.parents = [-1, 0]
    ops = [["new", dict(g.stream(), tgt=rng.choice([0, 0, 0, 1]))] for _ in range(n)]
    ops += [["poll", i, rng.choice([1, 2, 3])] for i in rng.sample(range(n), n * 9 // 10)]
    if rng.random() < .5:
        g.appn += 1
        ops.append(["mount", 1, [g.strand() for _ in range(4)]])
    ops += [["drop", rng.randrange(n - 5)] for _ in range(5)]
    for _ in range(10):
        ops += [g.act(True) for _ in range(3)]
        ops.append(g.disp())
        ops += [["poll", rng.randrange(n), rng.choice([1, 2])] for _ in range(10)]
    return dict(id=id, dom="event", parents=g.parents, ops=ops)


def from_walk(rng, id, w):
    """Edges of MC_Events: streams 1, 2 on the same element; the harness picks streams by their rank among the living."""
    ty = rng.choice(NAMES)
    ops, living = [], []
    for o in w:
        k = o[0]
        if k == "new":
            living.append(o[1])
            ops.append(["new", dict(tgt=0, ty=ty if o[2] == 1 else "x-" + ty, raw=o[2] != 1, fut=rng.random() < 0.5, cap=2 if o[3] else 0, pas=rng.choice([0, 1, 2]), ord=rng.randrange(8))])
        elif k == "poll":
            ops.append(["poll", living.index(o[1]), o[2]])
        elif k == "drop":
            ops.append(["drop", living.index(o[1])])
            living.remove(o[1])
        elif k == "disp":
            ops.append(["disp", 0, ty if o[1] == 1 else "x-" + ty, ELEMENT[ty], False, True])
    return dict(id=id, dom="event", parents=[-1], ops=ops)
