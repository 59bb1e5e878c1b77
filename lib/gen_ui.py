"""Scenarios for UI programs (D01-D03, L01-L04, S01)."""


class G:
    """Builds one scenario."""

    def __init__(self, rng, sid, prof):
        self.r, self.sid, self.p = rng, sid, prof
        self.ids = self.g = self.a = 0
        self.gates, self.opened = [], set()
        self.lists, self.slots, self.freeslots = {}, [], []
        self.place = []          # lists that may still be placed into a program
        self.elids = []
        self.ops = []
        self.keys = {}           # approximate contents of the lists
        self.models = {}
        self.dropdepth = 0

    # ---- names
    def nid(self, pre="e"):
        self.ids += 1
        return "%s%d" % (pre, self.ids)

    def gate(self):
        if self.gates and self.r.random() < .15:
            return self.r.choice(self.gates)
        self.g += 1
        self.gates.append(self.g)
        return self.g

    def gate_new(self):
        self.g += 1
        self.gates.append(self.g)
        return self.g

    def act(self):
        self.a += 1
        return self.a

    def new_list(self, kind):
        l = len(self.lists) + 1
        tpl = []
        self.lists[l] = dict(l=l, kind=kind, tpl=tpl)
        self.keys[l] = []
        if kind in ("diff", "model"):
            sub = dict(self.p, lists=0, slots=0, acts=0, blink=0)
            for _ in range(self.r.choice([1, 2, 3])):
                old, self.p = self.p, sub
                tpl.append(self.small())
                self.p = old
        return l

    def new_slot(self):
        self.slots.append(len(self.slots) + 1)
        return self.slots[-1]

    # ---- programs
    def el(self, kid, name=None):
        i = name or self.nid()
        self.elids.append(i)
        return dict(t="el", id=i, tag=self.r.randrange(10), kid=kid)

    def leaf(self):
        x = self.r.random()
        if x < .45:
            return self.el(dict(t="pend"))
        if x < .8:
            return dict(t="text", id=self.nid("t"), tag=self.r.randrange(2))
        if x < .9:
            return dict(t="nochild", id=self.nid("n"))
        return self.el(dict(t="text", id=self.nid("t"), tag=0))

    def small(self):
        """an item's program"""
        r = self.r
        if self.p.get("acts") and r.random() < .1:
            return dict(t="seq", kids=[dict(t="gate", g=self.gate(), kid=dict(t="ready")),
                                       dict(t="act", a=self.act(), ops=self.act_ops()), self.leaf()])
        x = r.random()
        if x < .35:
            return self.leaf()
        if x < .5:
            return self.comb("join", 1)
        if x < .62:
            return dict(t="until", g=self.gate(), kid=self.leaf())
        if x < .74:
            return dict(t="gate", g=self.gate(), kid=self.leaf())
        if x < .84:
            return self.comb("seq", 1)
        if x < .88:
            return dict(t="ready")
        if x < .92:
            return dict(t="pend")
        return self.prog(2)

    def shape(self, n, kind):
        if kind == "race" and n == 2 and self.r.random() < .2:
            return "sel"
        return self.r.choice(["tup", "arr", "vec"])

    def kids(self, n, d):
        return [self.prog(d) for _ in range(n)]

    def forever(self, d):
        """a program that never finishes"""
        p = self.prog(d)
        return dict(t="join", shape="tup", kids=[p, dict(t="pend")])

    def comb(self, kind, d):
        r = self.r
        n = r.choice([1, 2, 2, 3, 3, 4])
        if kind == "seq":
            # each step comes to an end at some time
            ks = []
            for i in range(r.choice([2, 2, 3])):
                x = r.random()
                if x < .6:
                    ks.append(dict(t="until", g=self.gate(), kid=self.prog(d)))
                elif x < .75:
                    ks.append(dict(t="gate", g=self.gate(), kid=dict(t="ready")))
                else:
                    ks.append(self.prog(d))
            return dict(t="seq", kids=ks)
        return dict(t=kind, shape=self.shape(n, kind), kids=self.kids(n, d))

    def wide(self, n=None):
        """a combinator over many pieces, which come and go by a few gates"""
        r = self.r
        kind = r.choices(["join", "race", "try_join", "race_ok"], [5, 1, 1, 1])[0] if not n else "join"
        n = n or r.choice([5, 7, 7, 9, 9, 12, 20])
        gs = [self.gate_new() for _ in range(r.choice([3, 6, 10]))]

        def kid():
            x = r.random()
            if x < .3:
                return self.leaf()
            if x < .7:
                return dict(t="gate", g=r.choice(gs), kid=self.leaf())
            if x < .85 or kind != "join":
                return dict(t="gate", g=r.choice(gs), kid=dict(t="join", shape="vec", kids=[dict(t="gate", g=r.choice(gs), kid=self.leaf()), self.leaf()]))
            return dict(t="until", g=r.choice(gs), kid=self.leaf())
        return dict(t=kind, shape=self.shape(n, kind), kids=[kid() for _ in range(n)])

    def static(self, d):
        """compositions without boxes"""
        r = self.r
        st = r.choice(["elj", "sel", "nest3", "jel", "jela", "srace", "sjoin"] + ["selement"] * (self.p.get("lists", 0) > 0))
        J = lambda sh, *k: dict(t="join", shape=sh, kids=list(k))
        if st == "elj":
            return dict(self.el(J("tup", *self.kids(r.choice([2, 3]), d))), st=st)
        if st == "sel":
            return dict(self.el(J("tup", self.el(self.forever(d)), self.el(self.forever(d)))), st=st)
        if st == "nest3":
            return dict(self.el(self.el(J("tup", self.el(self.forever(d)), self.prog(d)))), st=st)
        if st in ("jel", "jela"):
            return dict(J("tup", self.el(self.forever(d)), self.el(self.forever(d))), st=st)
        if st == "srace":
            return dict(dict(t="race", shape="tup", kids=[self.el(self.prog(d)), self.prog(d)]), st=st)
        if st == "sjoin":
            return dict(J("tup", J("tup", *self.kids(2, d)), J("arr", *self.kids(2, d))), st=st)
        return dict(self.el(self.ownv()), st=st)

    def ownv(self):
        l = self.new_list("own")
        script = []
        for _ in range(self.r.choice([1, 2, 3])):
            script.append(dict(g=self.gate(), a=self.act(), ops=[self.list_op(l) for _ in range(self.r.choice([1, 2, 3]))]))
        return dict(t="ownv", l=l, script=script)

    def prog(self, d):
        r, p = self.r, self.p
        if d <= 0:
            return self.leaf() if r.random() < .8 else dict(t=r.choice(["pend", "ready"]))
        c = [("leaf", 2), ("el", 3), ("join", 4), ("race", 1.2), ("try_join", .7), ("race_ok", .5), ("seq", 2), ("gate", 2.5),
             ("until", 2.5), ("fail", .3), ("yield", .4), ("meanwhile", .6), ("pendafter", .3), ("static", p.get("static", .8)), ("list", 2 * p.get("lists", 0)),
             ("slot", 2 * p.get("slots", 0)), ("own", p.get("lists", 0)), ("act", p.get("acts", 0)), ("ondrop", .5 * p.get("acts", 0)),
             ("blink", p.get("blink", 0)), ("reuse", p.get("reuse", 0))]
        k = r.choices([x for x, _ in c], [w for _, w in c])[0]
        if k == "leaf":
            return self.leaf()
        if k == "el":
            return self.el(self.prog(d - 1))
        if k in ("join", "race", "try_join", "race_ok", "seq"):
            return self.comb(k, d - 1)
        if k == "gate":
            return dict(t="gate", g=self.gate(), kid=self.prog(d - 1))
        if k == "until":
            return dict(t="until", g=self.gate(), kid=self.prog(d - 1))
        if k == "fail":
            return dict(t="fail", g=self.gate())
        if k == "meanwhile":
            return dict(t="meanwhile", kids=self.kids(2, d - 1))
        if k == "pendafter":
            return dict(t="pendafter", kid=self.prog(d - 1))
        if k == "yield":
            return dict(t="yield", n=r.choice([1, 2, 5]), kid=self.prog(d - 1))
        if k == "static":
            return self.static(d - 1)
        if k == "list":
            free = [l for l in self.place]
            l = free[0] if free else self.new_list(r.choice(p.get("kinds", ["dyn"])))
            if l in self.place:
                self.place.remove(l)
            return dict(t="list", l=l, many=False)
        if k == "blink":
            return self.blink(self.new_list(r.choice(p.get("kinds", ["dyn"]))))
        if k == "reuse":
            return self.reuse(d - 1)
        if k == "own":
            if r.random() < .5:
                return self.ownv()
            l = self.new_list("own")
            return dict(t="own", l=l, ops=[self.list_op(l) for _ in range(r.choice([0, 1, 2, 3]))])
        if k == "slot":
            return dict(t="slot", s=self.new_slot())
        if k == "act":
            return dict(t="seq", kids=[dict(t="gate", g=self.gate(), kid=dict(t="ready")),
                                       dict(t="act", a=self.act(), ops=self.act_ops()), self.prog(d - 1)])
        if k == "ondrop":
            return dict(t="ondrop", ops=self.act_ops(), kid=self.prog(d - 1))
        raise AssertionError(k)

    def deep(self, n):
        """many combinators inside each other, no element in between"""
        r = self.r
        x = self.prog(1)
        for _ in range(n):
            ks = [x]
            for _ in range(r.choice([0, 1, 1, 2])):
                ks.insert(r.randrange(len(ks) + 1), self.p_sib())
            y = r.random()
            if y < .7:
                x = dict(t="join", shape=self.shape(len(ks), "join"), kids=ks)
            elif y < .85:
                x = dict(t=r.choice(["race", "try_join", "race_ok"]), shape=r.choice(["tup", "arr", "vec"]), kids=ks)
            else:
                x = dict(t=r.choice(["until", "gate"]), g=self.gate(), kid=x)
        return x

    def reuse(self, d):
        """an element that shows one thing after the other"""
        r = self.r
        sh = self.nid("")
        steps = []
        n = r.choice([2, 2, 3])
        for i in range(n):
            x = dict(self.el(self.prog(d) if r.random() < .5 else self.comb("join", d)), sh=int(sh))
            y = r.random()
            x = x if y < .5 else self.el(x) if y < .75 else dict(t="join", shape=self.shape(2, "join"), kids=[self.p_sib(), x])
            steps.append(x if i == n - 1 and r.random() < .5 else dict(t="until", g=self.gate(), kid=x))
            if r.random() < .3:
                steps.append(dict(t="gate", g=self.gate(), kid=dict(t="ready")))
        return dict(t="seq", kids=steps)

    def blink(self, l):
        """a list that is shown, hidden and shown again, also elsewhere"""
        r = self.r
        steps = []
        for i in range(r.choice([2, 2, 3, 4])):
            li = dict(t="list", l=l, many=True)
            x = r.random()
            body = li if x < .5 else self.el(li) if x < .7 else \
                dict(t="join", shape=self.shape(2, "join"), kids=[dict(t="gate", g=self.gate(), kid=self.leaf()), li] +
                     ([dict(t="gate", g=self.gate(), kid=self.leaf())] if r.random() < .5 else []))
            steps.append(dict(t="until", g=self.gate(), kid=body))
            if r.random() < .5:
                steps.append(dict(t="gate", g=self.gate(), kid=dict(t="ready")))
        return dict(t="seq", kids=steps)

    # ---- operations
    def act_ops(self):
        r = self.r
        res = []
        for _ in range(r.choice([1, 1, 2])):
            x = r.random()
            c = [l for l, d in self.lists.items() if d["kind"] != "own"]
            if x < .3 and self.gates:
                res.append(dict(op="open", g=r.choice(self.gates)))
            elif x < .65 and c:
                res.append(self.list_op(r.choice(c), nested=False))
            elif self.slots and self.p.get("slots"):
                res.append(self.slot_op(nested=False))
        return res

    def slot_op(self, nested=True):
        r = self.r
        s = r.choice(self.slots)
        if r.random() < .25:
            return dict(op="sclr", s=s)
        x = r.random()
        if x < .15 and self.p.get("selfset"):
            # the slotted future changes its own slot
            kid = dict(t="seq", kids=[dict(t="gate", g=self.gate(), kid=dict(t="ready")),
                                      dict(t="act", a=self.act(), ops=[self.slot_op(False)]), self.leaf()])
            pr = dict(t="join", shape="tup", kids=[self.leaf(), kid])
        elif x < .25 and self.p.get("selfset"):
            pr = dict(t="ondrop", ops=[self.slot_op(False)], kid=self.leaf())
        elif not nested:
            pr = self.leaf()
        else:
            pr = self.small()
        return dict(op="sset", s=s, prog=pr)

    def key(self, l):
        r = self.r
        ks = self.keys[l]
        return r.choice(ks) if ks and r.random() < .75 else r.randrange(self.p.get("nkeys", 5))

    def list_op(self, l, nested=True):
        r = self.r
        kind = self.lists[l]["kind"]
        ks = self.keys[l]
        if kind == "diff":
            if r.random() < .1:
                return dict(op="has", l=l, k=r.randrange(7))
            return dict(op="upd", l=l, keys=self.next_keys(ks, l))
        if kind == "model":
            return self.model_op(l)
        x = r.random()
        n = self.p.get("nkeys", 5)
        if not ks or x < .4:
            k = self.key(l) if r.random() < .25 else r.randrange(n)
            b = [] if r.random() < .4 else [self.key(l)] if r.random() < .8 else [r.randrange(n + 2)]
            if nested and r.random() < self.p.get("nest", .1):
                pr = dict(t="list", l=self.new_list("dyn"), many=False)
                if r.random() < .3:
                    pr = dict(t="join", shape="tup", kids=[dict(t="gate", g=self.gate(), kid=self.leaf()), pr])
            elif nested:
                pr = self.small()
            else:
                pr = self.leaf()
            if k not in self.keys[l]:
                self.keys[l].append(k)
            return dict(op="ins", l=l, k=k, before=b, prog=pr)
        if x < .53:
            k = self.key(l)
            if k in ks:
                ks.remove(k)
            return dict(op="rm", l=l, k=k)
        if x < .74:
            return dict(op="mv", l=l, k=self.key(l), before=[] if r.random() < .25 else [self.key(l) if r.random() < .9 else n + 1])
        if x < .93:
            return dict(op="sw", l=l, a=self.key(l), b=self.key(l))
        if x < .97:
            keep = [k for k in range(n) if r.random() < .7]
            self.keys[l] = [k for k in ks if k in keep]
            return dict(op="retain", l=l, keep=keep)
        return dict(op="has", l=l, k=self.key(l))

    def next_keys(self, ks, l):
        r = self.r
        x = r.random()
        n = self.p.get("dkeys") or r.choice([3, 5, 8, 12])
        if x < .3 or not ks:
            new = r.sample(range(n), r.randrange(n + 1))
        elif x < .6:
            new = list(ks)
            for _ in range(r.choice([1, 1, 2, 3])):
                y = r.random()
                free = [k for k in range(self.p.get("dkeys", 12) + 2) if k not in new]
                if y < .3 and free:
                    new.insert(r.randrange(len(new) + 1), r.choice(free))
                elif y < .55 and new:
                    new.pop(r.randrange(len(new)))
                elif new:
                    k = new.pop(r.randrange(len(new)))
                    new.insert(r.randrange(len(new) + 1), k)
        elif x < .8:
            new = r.sample(ks, len(ks))
        elif x < .9:
            new = r.sample(ks, r.randrange(len(ks) + 1))
        else:
            i = r.randrange(len(ks) + 1)
            new = ks[i:] + ks[:i]
        self.keys[l] = new
        return new

    def model_op(self, l):
        r = self.r
        if r.random() < self.p.get("mupd", .3) or not self.models:
            if not self.models:
                self.models[1] = []
                return dict(op="model", m=1, f="from", a=self.set_model(1, r.sample(range(8), r.randrange(7))), it=r.random() < .5)
            last = self.lists[l].get("lastm")
            m = last if last in self.models and r.random() < .85 else r.choice(sorted(self.models))
            self.lists[l]["lastm"] = m
            return dict(op="mupd", l=l, m=m)
        m = r.choice(sorted(self.models))
        v = self.models[m]
        free = [k for k in range(self.p.get("mkeys", 14)) if k not in v]
        x = r.random()
        if x < .22 and free:
            k = r.choice(free)
            v.append(k)
            return dict(op="model", m=m, f="push", a=[k])
        if x < .44 and free:
            k, i = r.choice(free), r.randrange(len(v) + 1)
            v.insert(i, k)
            return dict(op="model", m=m, f="insert", a=[i, k])
        if x < .58 and v:
            i = r.randrange(len(v))
            v.pop(i)
            return dict(op="model", m=m, f="remove", a=[i])
        if x < .64:
            if v:
                v.pop()
            return dict(op="model", m=m, f="pop", a=[])
        if x < .76 and v:
            i, j = r.randrange(len(v)), r.randrange(len(v))
            if r.random() < .4 and len(v) > 1:
                i = r.randrange(len(v) - 1)
                j = i + 1
            v[i], v[j] = v[j], v[i]
            return dict(op="model", m=m, f="swap", a=[i, j])
        if x < .9 and v:
            i, j = r.randrange(len(v)), r.randrange(len(v))
            v.insert(j, v.pop(i))
            return dict(op="model", m=m, f="move", a=[i, j])
        if x < .94:
            y = r.random()
            new = r.sample(v, len(v)) if y < .5 else r.sample(range(self.p.get("mkeys", 10)), r.randrange(9))
            return dict(op="model", m=m, f="vec", a=self.set_model(m, new))
        if x < .97:
            m2 = r.choice([1, 2, 3])
            if m2 != m:
                self.models[m2] = list(v)
                return dict(op="model", m=m2, f="clone", a=[m])
        m2 = r.choice([1, 2])
        return dict(op="model", m=m2, f="from", a=self.set_model(m2, r.sample(range(10), r.randrange(9))), it=r.random() < .5)

    def set_model(self, m, v):
        self.models[m] = list(v)
        return list(v)

    def open_op(self):
        left = [g for g in self.gates if g not in self.opened]
        if not left:
            return None
        # mostly the gates that come first in the program
        g = self.r.choice(left[:4]) if self.r.random() < .7 else self.r.choice(left)
        self.opened.add(g)
        return dict(op="open", g=g)

    def edit(self):
        c = sorted(self.lists)
        if not c:
            return None
        l = self.r.choice(c[:2]) if self.r.random() < .7 else self.r.choice(c)
        if self.lists[l]["kind"] == "own" and self.r.random() < .5:
            return None
        return self.list_op(l)

    def scenario(self):
        r, p = self.r, self.p
        nh = r.choice(p.get("hosts", [1]))
        hosts = [dict(h=h + 1, nf=r.choice([0, 0, 1, 2])) for h in range(nh)]
        ms = []
        for m in range(r.choice(p.get("mounts", [1]))):
            ms.append(dict(op="mount", m=m + 1, h=r.randrange(nh) + 1, prog=self.root()))
        ops = self.ops
        # edits before anything is shown
        for _ in range(r.choice(p.get("early", [0, 0, 2, 4]))):
            ops.append(self.edit())
        for _ in range(r.choice([0, 0, 1])):
            ops.append(self.open_op())
        ops.append(ms.pop(0))
        if r.random() < .5:
            ops.append(dict(op="snap"))
        live = [1]
        for _ in range(r.choice(p.get("len", [8, 15, 25]))):
            k = r.choices(["open", "edit", "slot", "snap", "peek", "tick", "foreign", "unmount", "mount"],
                          [p.get("open", 4), p.get("edit", 0), p.get("slot", 0), 3, .7, .7, p.get("foreign", .5),
                           p.get("unmount", .1), 1 if ms else 0])[0]
            if k == "open":
                for _ in range(r.choice([1, 1, 2, 3])):
                    ops.append(self.open_op())
            elif k == "edit":
                for _ in range(r.choice([1, 1, 1, 2, 4])):
                    ops.append(self.edit())
            elif k == "slot":
                if self.slots:
                    ops.append(self.slot_op())
            elif k == "foreign":
                x = r.random()
                if x < .5 or not self.elids:
                    ops.append(dict(op="foreign", h=r.randrange(nh) + 1, id="", first=r.random() < .5))
                else:
                    ops.append(dict(op="foreign", h=0, id=r.choice(self.elids), first=r.random() < .5))
            elif k == "unmount":
                if live:
                    m = r.choice(live)
                    live.remove(m)
                    ops.append(dict(op="unmount", m=m))
            elif k == "mount":
                o = ms.pop(0)
                live.append(o["m"])
                ops.append(o)
            else:
                ops.append(dict(op=k))
        for m in ms:
            ops.append(m)
        ops = [o for o in ops if o]
        lists = [dict(l=d["l"], kind=d["kind"], tpl=d["tpl"]) for d in self.lists.values()]
        return dict(id=self.sid, dom="ui", hosts=hosts, lists=lists, slots=self.slots, ops=ops,
                    meta=dict(lists=lists, slots=self.slots))

    def root(self):
        p, r = self.p, self.r
        f = p.get("root")
        if f:
            return f(self)
        if r.random() < .04:
            x = self.wide()
            return x if r.random() < .5 else self.el(x) if r.random() < .5 else dict(t="join", shape="tup", kids=[self.p_sib(), x, self.p_sib()])
        if r.random() < .25:
            return self.deep(r.choice([3, 4, 5, 6, 8, 10] + [14, 18, 25, 35] * (r.random() < .1)))
        return self.prog(r.choice(p.get("depth", [2, 3, 4])))


def around(g, x):
    """x among siblings that come and go"""
    r = g.r
    ks = []
    for _ in range(r.choice([0, 1, 2])):
        ks.append(g.p_sib())
    ks.append(x)
    for _ in range(r.choice([0, 1, 2])):
        ks.append(g.p_sib())
    if len(ks) == 1 and r.random() < .5:
        return x
    p = dict(t="join", shape=r.choice(["tup", "arr", "vec"]) if len(ks) < 4 else "vec", kids=ks)
    return g.el(p) if r.random() < .4 else p


def sib(g):
    x = g.r.random()
    if x < .35:
        return dict(t="gate", g=g.gate(), kid=g.leaf())
    if x < .6:
        return dict(t="until", g=g.gate(), kid=g.leaf())
    if x < .75:
        return dict(t="seq", kids=[dict(t="until", g=g.gate(), kid=g.leaf()), dict(t="gate", g=g.gate(), kid=g.leaf())])
    return g.leaf()


G.p_sib = sib


def root_lists(g):
    kinds = g.p["kinds"]
    xs = [dict(t="list", l=g.new_list(g.r.choice(kinds)), many=False) for _ in range(g.r.choice([1, 1, 1, 2]))]
    x = around(g, xs[0])
    return x if len(xs) == 1 else dict(t="join", shape="tup", kids=[x, xs[1]])


def root_own(g):
    return root_lists(g) if g.r.random() < .75 else around(g, g.ownv())


def root_blink(g):
    x = around(g, g.blink(g.new_list(g.r.choice(g.p["kinds"]))))
    if g.r.random() < .3:
        x = dict(t="join", shape="tup", kids=[x, g.prog(2)])
    return x


def root_slot(g):
    x = around(g, dict(t="slot", s=g.new_slot()))
    y = g.r.random()
    if y < .2:
        x = dict(t="gate", g=g.gate(), kid=x)
    elif y < .4:
        x = dict(t="until", g=g.gate(), kid=x)
    return x


TREE = dict(reuse=.8, lists=.15, slots=.15, acts=.3, edit=1, slot=.7, mounts=[1, 1, 1, 2], hosts=[1, 1, 2])
PROFILES = {
    "D01": dict(TREE, unmount=.05),
    "D02": dict(TREE, unmount=.15, foreign=1.5),
    "D03": dict(TREE, unmount=1.2, foreign=.7, mounts=[1, 2, 3], hosts=[1, 2], lists=.4),
    "L01": dict(kinds=["dyn"], acts=.4, root=root_own, edit=8, open=1.5, lists=.2, nest=.08, len=[10, 20, 35], early=[0, 2, 5]),
    "L02": dict(kinds=["dyn", "dyn", "dyn", "diff", "model"], acts=.3, root=root_blink, edit=4, open=4, lists=.2, nest=.15, blink=1, len=[12, 20, 30], unmount=.2),
    "L03": dict(kinds=["diff"], root=root_lists, edit=8, open=1, len=[10, 20, 30], early=[0, 1, 3]),
    "L04": dict(kinds=["model"], root=root_lists, edit=12, open=1, len=[15, 25, 40], early=[0, 3, 6], mupd=.25),
    "S01": dict(root=root_slot, slots=.2, acts=.4, selfset=True, slot=6, open=3, edit=0, lists=.05, len=[8, 15, 25]),
}


def wide(rng, sid, prop, n):
    """a program of n pieces side by side"""
    g = G(rng, sid, PROFILES[prop])
    w = g.wide(n)
    return g.finish(w if rng.random() < .5 else g.el(w), [g.open_op() for _ in range(4)], at=rng.choice([0, 2]))


def big(rng, sid, prop, n, steps):
    """a list of n items and many edits"""
    kind = dict(L01="dyn", L02="dyn", L03="diff", L04="model")[prop]
    g = G(rng, sid, dict(PROFILES[prop], nkeys=n + 3, dkeys=n + 3, mkeys=n + 20, mupd=.05, nest=0))
    l = g.new_list(kind)
    if kind != "dyn":
        g.lists[l]["tpl"][:] = [g.leaf() for _ in range(3)]
    root = around(g, dict(t="list", l=l, many=False))
    ks = rng.sample(range(n + 3), n)
    ops = []
    if kind == "dyn":
        for k in ks:
            b = [] if rng.random() < .6 or not g.keys[l] else [rng.choice(g.keys[l])]
            ops.append(dict(op="ins", l=l, k=k, before=b, prog=g.leaf() if rng.random() < .8 else dict(t="until", g=g.gate(), kid=g.leaf())))
            g.keys[l].append(k)
    elif kind == "diff":
        g.keys[l] = ks
        ops.append(dict(op="upd", l=l, keys=list(ks)))
    else:
        ops.append(dict(op="model", m=1, f="from", a=g.set_model(1, ks), it=rng.random() < .5))
        ops.append(dict(op="mupd", l=l, m=1))
        g.lists[l]["lastm"] = 1
    for _ in range(steps):
        ops.append(g.list_op(l, False))
    if kind == "model":
        ops.append(dict(op="mupd", l=l, m=1))
    return g.finish(root, ops, snap=.03, at=rng.choice([0, 0, min(len(ops), n // 2)]))


def mchurn(rng, sid, n, steps, upd):
    """one model of about n items through a long history of edits, which often concern the same items or the ends"""
    g = G(rng, sid, dict(PROFILES["L04"], mkeys=2 * n + 8, nest=0))
    l = g.new_list("model")
    g.lists[l]["tpl"][:] = [g.leaf() for _ in range(2)]
    root = around(g, dict(t="list", l=l, many=False))
    v = rng.sample(range(n), n)
    ops = [dict(op="model", m=1, f="from", a=list(v), it=False), dict(op="mupd", l=l, m=1)]
    hot = v[0] if v else 0

    def pos(lo, hi):
        x = rng.random()
        return lo if x < .2 else hi if x < .45 else rng.randint(lo, hi)

    def at():
        return v.index(hot) if hot in v and rng.random() < .5 else pos(0, len(v) - 1)
    while len(ops) < steps:
        x = rng.random()
        free = [k for k in range(2 * n + 8) if k not in v]
        more = .5 if n // 2 < len(v) < 3 * n // 2 + 4 else .1 if len(v) > n else .9
        if x < upd:
            ops.append(dict(op="mupd", l=l, m=1))
            continue
        if x < upd + .02:
            rng.shuffle(v)
            ops.append(dict(op="model", m=1, f="vec", a=list(v)))
            continue
        x = rng.random()
        if x < .45 and rng.random() < more and free:
            k = hot if hot in free and rng.random() < .5 else rng.choice(free)
            i = pos(0, len(v))
            if i == len(v) and rng.random() < .7:
                o = dict(f="push", a=[k])
            else:
                o = dict(f="insert", a=[i, k])
            v.insert(i, k)
            hot = k
        elif not v:
            continue
        elif x < .45:
            i = at()
            hot = v.pop(i)
            o = dict(f="pop", a=[]) if i == len(v) and rng.random() < .5 else dict(f="remove", a=[i])
        elif x < .7:
            i, j = at(), pos(0, len(v) - 1)
            hot = v[i]
            v[i], v[j] = v[j], v[i]
            o = dict(f="swap", a=rng.sample([i, j], 2))
        else:
            i, j = at(), pos(0, len(v) - 1)
            hot = v.pop(i)
            v.insert(j, hot)
            o = dict(f="move", a=[i, j])
        ops.append(dict(op="model", m=1, **o))
    ops.append(dict(op="mupd", l=l, m=1))
    return g.finish(root, ops, snap=.15 if steps < 200 else .05, at=0)


def scenario(rng, sid, prop, **more):
    return G(rng, sid, dict(PROFILES[prop], **more)).scenario()


def rewake(rng, x, rate):
    """some pieces are polled with a new waker each time"""
    if isinstance(x, list):
        for y in x:
            rewake(rng, y, rate)
    elif isinstance(x, dict):
        if "t" in x and rng.random() < rate:
            x["rw"] = True
        for k in ("kid", "kids", "ops", "script", "prog", "tpl", "lists"):
            if k in x:
                rewake(rng, x[k], rate)


# ---- walks through the designs' state graphs
def diff_walk(rng, sid, w):
    """a walk through MC_Diff"""
    g = G(rng, sid, PROFILES["L03"])
    root = around(g, dict(t="list", l=g.new_list("diff"), many=False))
    ops = [dict(op="upd", l=1, keys=o[1]) for o in w]
    return g.finish(root, ops)


def model_walk(rng, sid, w):
    """a behaviour of MC_Model"""
    g = G(rng, sid, PROFILES["L04"])
    root = around(g, dict(t="list", l=g.new_list("model"), many=False))
    m = 1
    ops = [dict(op="model", m=1, f="from", a=[], it=rng.random() < .5)]
    for o in w:
        if o[0] == "mupd":
            ops.append(dict(op="mupd", l=1, m=m))
        elif o[0] == "clone":
            m += 1
            ops.append(dict(op="model", m=m, f="clone", a=[m - 1]))
        else:
            ops.append(dict(op="model", m=m, f=o[0], a=o[1] if o[0] == "vec" else o[1:]))
    ops.append(dict(op="mupd", l=1, m=m))
    return g.finish(root, ops)


def dom_walk(prop):
    def conv(rng, sid, w):
        """a walk through MC_Dom: a program whose gates open one after the other"""
        g = G(rng, sid, PROFILES[prop])

        def fill(p):
            q = dict(p)
            if q["t"] == "el":
                q["tag"] = rng.randrange(10)
                g.elids.append(q["id"])
            elif q["t"] == "text":
                q["tag"] = rng.randrange(2)
            elif q["t"] in ("join", "race", "try_join", "race_ok"):
                q["shape"] = g.shape(len(q["kids"]), q["t"])
            if "kid" in q:
                q["kid"] = fill(q["kid"])
            if "kids" in q:
                q["kids"] = [fill(k) for k in q["kids"]]
            return q
        root = fill(w[0][1])
        ops = []
        for o in w[1:]:
            ops.append(dict(op="open", g=o[1]))
            if prop != "D01" and rng.random() < .08:
                i = rng.choice([""] + g.elids)
                ops.append(dict(op="foreign", h=0 if i else 1, id=i, first=rng.random() < .5))
        if prop == "D03":
            ops += [dict(op="unmount", m=1)]
        return g.finish(root, ops, at=0)
    return conv


def slot_walk(rng, sid, w):
    """a walk through MC_Slot"""
    g = G(rng, sid, PROFILES["S01"])
    x = g.new_slot()
    show, hide = g.gate_new(), g.gate_new()
    root = dict(t="seq", kids=[dict(t="gate", g=show, kid=dict(t="ready")),
                               dict(t="until", g=hide, kid=around(g, dict(t="slot", s=x))), dict(t="pend")])
    ops, last = [], 0

    def leafset():
        return dict(op="sset", s=x, prog=g.leaf())
    for o in w:
        if o[0] == "set":
            last = g.gate_new()
            pr = dict(leaf=lambda: g.leaf(), until=lambda: dict(t="until", g=last, kid=g.leaf()),
                      gate=lambda: dict(t="gate", g=last, kid=g.leaf()), ready=lambda: dict(t="ready"),
                      self=lambda: dict(t="seq", kids=[dict(t="gate", g=last, kid=dict(t="ready")),
                                                       dict(t="act", a=g.act(), ops=[leafset()]), g.leaf()]),
                      drop=lambda: dict(t="ondrop", ops=[leafset()], kid=g.leaf()))[o[1]]()
            ops.append(dict(op="sset", s=x, prog=pr))
        elif o[0] == "clear":
            ops.append(dict(op="sclr", s=x))
        elif o[0] == "open":
            ops.append(dict(op="open", g=last))
        elif o[0] in ("show", "hide"):
            ops.append(dict(op="open", g=show if o[0] == "show" else hide))
        else:
            ops.append(dict(op="snap"))
    g.gates = []
    return g.finish(root, ops, snap=.05, at=0)


def list_walk(rng, sid, w):
    """a walk through MC_List"""
    g = G(rng, sid, PROFILES["L02"])
    l = g.new_list("dyn")
    li = dict(t="list", l=l, many=True)
    sg = [g.gate_new() for _ in range(6)]
    steps = []
    for i in range(2):
        steps.append(dict(t="gate", g=sg[2 * i], kid=dict(t="ready")))
        steps.append(dict(t="until", g=sg[2 * i + 1], kid=g.el(li) if rng.random() < .1 else li))
    steps.append(dict(t="pend"))
    root = dict(t="join", shape=rng.choice(["tup", "arr", "vec"]), kids=[
        dict(t="gate", g=sg[4], kid=g.leaf()), dict(t="seq", kids=steps), dict(t="gate", g=sg[5], kid=g.leaf())])
    ops, ph, item = [], 0, {}
    for o in w:
        if o[0] == "ins":
            a, b = g.gate_new(), g.gate_new()
            item[o[1]] = (a, b)
            ops.append(dict(op="ins", l=l, k=o[1], before=o[2], prog=dict(t="gate", g=a, kid=dict(t="until", g=b, kid=g.leaf()))))
        elif o[0] == "open":
            ops.append(dict(op="open", g=item[o[1]][o[2]]))
        elif o[0] in ("show", "hide"):
            ops.append(dict(op="open", g=sg[ph]))
            ph += 1
        elif o[0] == "sib":
            ops.append(dict(op="open", g=sg[4 if o[1] == "A" else 5]))
        elif o[0] == "sw":
            ops.append(dict(op="sw", l=l, a=o[1], b=o[2]))
        elif o[0] == "mv":
            ops.append(dict(op="mv", l=l, k=o[1], before=o[2]))
        elif o[0] == "rm":
            ops.append(dict(op="rm", l=l, k=o[1]))
        else:
            ops.append(dict(op="retain", l=l, keep=o[1]))
    g.gates = []
    return g.finish(root, ops, at=0)


def finish(g, root, ops, snap=.25, at=None):
    """the program, shown at some time, and the operations, with some others in between"""
    r = g.r
    if at is None:
        at = 0 if r.random() < .6 else r.randrange(len(ops) + 1)
    res = []
    for i, o in enumerate(ops + [None]):
        if i == at:
            res.append(dict(op="mount", m=1, h=1, prog=root))
        if o:
            res.append(o)
        x = r.random()
        if x < snap:
            res.append(dict(op="snap"))
        elif x < snap + .08:
            res.append(g.open_op())
        elif x < snap + .12:
            res.append(dict(op=r.choice(["tick", "peek"])))
    res.append(dict(op="snap"))
    lists = [dict(l=d["l"], kind=d["kind"], tpl=d["tpl"]) for d in g.lists.values()]
    return dict(id=g.sid, dom="ui", hosts=[dict(h=1, nf=r.choice([0, 0, 1, 2]))], lists=lists, slots=g.slots, ops=[o for o in res if o],
                meta=dict(lists=lists, slots=g.slots))


G.finish = finish
