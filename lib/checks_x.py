"""Checks W01, W02, X01-X06."""
import core, gen_x
from check import Check, mutate_event


class Arena(Check):
    harness, spec = "xbow", "ArenaTrace"
    mc = [("MC_Arena", None, {"NL": 3, "NS": 5, "NW": 2})]

    def scenarios(self, rng, quick, work):
        res = []
        g, init = core.edges("MC_Arena", work, {"NL": 2, "NS": 3 if quick else 4, "NW": 2 if quick else 1})
        ws, self.edges_cov, self.edges_all = core.walks(g, init, rng, 120, None if quick else 150000)
        res += [dict(id="mc%d" % i, dom="arena", nw=5, ops=w) for i, w in enumerate(ws)]
        n = 300 if quick else 3000
        res += [gen_x.arena_scenario(rng, "r%d" % i, rng.choice([30, 80, 200])) for i in range(n)]
        res += [gen_x.arena_scenario(rng, "b%d-%d" % (maxl, i), 5 * (maxl + maxs) // 4, maxl, maxs) for i in range(1 if quick else 8)
                for maxl, maxs in ((1, 300), (2, 140), (70, 150), (150, 300))]
        res += [gen_x.arena_churn(rng, "churn%d" % i, 40 if quick else 200) for i in range(6)]
        return res

    def corrupt(self, rng, t):
        return mutate_event(rng, t, "rm", lambda e: e.update(held=e["held"] + [[99, 1]]))


class Cell(Check):
    harness, spec = "xbow", "CellTrace"
    mc = [("MC_Cell", None, {"NI": 3, "NW": 2, "NV": 1})]

    def scenarios(self, rng, quick, work):
        g, init = core.edges("MC_Cell", work, {"NI": 2, "NW": 2, "NV": 1} if quick else {"NI": 3, "NW": 2, "NV": 1})
        ws, self.edges_cov, self.edges_all = core.walks(g, init, rng, 80, None if quick else 100000)
        res = [dict(id="mc%d" % i, dom="cell", init=0, ops=w, meta=dict(init=0)) for i, w in enumerate(ws)]
        res += [gen_x.cell_scenario(rng, "r%d" % i, rng.choice([20, 60, 150])) for i in range(500 if quick else 5000)]
        res += [gen_x.cell_scenario(rng, "b%d-%d" % (n, i), 6 * n, n) for i in range(1 if quick else 8) for n in (40, 70, 150, 300)]
        return res

    def corrupt(self, rng, t):
        return mutate_event(rng, t, "poll", lambda e: e.update(res=not e["res"]))


class XS(Check):
    harness, spec = "xbow", "XStoreTrace"
    kinds, focus, weights, mckinds = (), (), None, '{"until", "bub"}'
    hows = ("set", "guard", "touch", "quiet", "notify")
    many = False      # the state graph for two listeners is large
    big = 3

    @property
    def mc(self):
        return [("MC_XStore", None, {"NI": self.big, "NW": 1, "MCKinds": self.mckinds})]

    def consts(self):
        return {"Focus": core.tla_set(self.focus)}

    def scenarios(self, rng, quick, work):
        small = quick and self.many
        g, init = core.edges("MC_XStore", work, {"NI": 1 if small else 2, "NW": 2 if small else 1, "MCKinds": self.mckinds})
        ws, self.edges_cov, self.edges_all = core.walks(g, init, rng, 80, 5000 if small else 8000 if quick else 120000)
        ws += core.behaviours("MC_XStore", work, {"NI": 3, "NW": 2, "MCKinds": self.mckinds}, 60 if quick else 1500, 40, rng.randrange(10 ** 6))
        res = [gen_x.mc_store_scenario(rng, "mc%d" % i, w) for i, w in enumerate(ws)]
        n = 300 if quick else 4000
        res += [gen_x.store_scenario(rng, "r%d" % i, self.kinds, rng.choice([15, 30, 60]), self.weights, self.hows) for i in range(n)]
        for _ in range(1 if quick else 6):
            sw = gen_x.sweep(rng, self.kinds, self.hows)
            res += sw if quick else [dict(x, id="%s-%d" % (x["id"], _)) for x in sw]
        res += [gen_x.deep_scenario(rng, "deep%d" % i, self.kinds, 20) for i in range(6 if quick else 80)]
        res += [gen_x.twins(rng, "twins%d-%d" % (j, i), self.kinds, at) for i in range(1 if quick else 10) for j, at in enumerate(gen_x.TWINS)]
        res += [gen_x.crowd(rng, "crowd%d" % i, self.kinds) for i in range(3 if quick else 40)]
        return res


class X01(XS):
    kinds, focus = ("until", "until", "bub"), ("until",)
    mckinds = '{"until"}'
    weights = dict(see=0)

    def corrupt(self, rng, t):
        return mutate_event(rng, t, "poll", lambda e: e.update(res="pending" if e["res"] == "ready" else "ready"),
                            lambda e: e["id"] in {x["id"] for x in t["ev"] if x["op"] == "new" and x["kind"] == "until"})


class X02(XS):
    kinds, focus = ("bub", "bub", "until"), ("bub",)
    mckinds = '{"bub"}'
    weights = dict(see=0)

    def corrupt(self, rng, t):
        return mutate_event(rng, t, "poll", lambda e: e.update(res="pending" if e["res"] == "ready" else "ready"),
                            lambda e: e["id"] in {x["id"] for x in t["ev"] if x["op"] == "new" and x["kind"] == "bub"})


class X03(XS):
    kinds, focus = ("until", "bub", "until", "bub", "signal", "foreach", "fea", "bind"), ("until", "bub", "signal", "foreach", "fea", "bind", "spur", "held")
    mckinds = '{"until", "bub"}'
    weights = dict(see=0, drop=2.5, new=4)

    def corrupt(self, rng, t):
        return mutate_event(rng, t, "acc", lambda e: e.update(wk=e["wk"] + [77]))


class X04(XS):
    kinds, focus = ("signal", "foreach", "fea", "fea"), ("signal", "foreach", "fea")
    mckinds = '{"signal", "foreach", "fea"}'
    many, big = True, 2

    def corrupt(self, rng, t):
        return mutate_event(rng, t, "poll", lambda e: e.update(calls=e["calls"] + [[]]))


class X05(XS):
    kinds, focus = ("bind", "bind", "until", "foreach"), ("bind", "until", "foreach", "data")
    mckinds = '{"bind", "until"}'
    many, big = True, 2

    def corrupt(self, rng, t):
        return mutate_event(rng, t, "feed", lambda e: e.update(data=e["data"] + [[["zz"], 1]]))


class X06(XS):
    kinds, focus = ("until", "bub"), ("data", "see", "acc", "until", "bub", "spur")
    weights = dict(see=6, acc=8, new=1, poll=2, drop=0.5, share=0.6)

    def corrupt(self, rng, t):
        return mutate_event(rng, t, "see", lambda e: e.update(some=not e["some"]))


CHECKS = {"W01": Arena, "W02": Cell, "X01": X01, "X02": X02, "X03": X03, "X04": X04, "X05": X05, "X06": X06}
