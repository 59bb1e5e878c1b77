"""Checks D01-D03, L01-L04, S01."""
import copy, json
import core, gen_ui
from check import Check, mutate_event


class Ui(Check):
    harness, spec = "dom", "UiTrace"
    nq, nt = 3000, 40000

    def __init__(self, prop):
        super().__init__(prop)
        if prop in ("L03", "L04"):
            self.nq, self.nt = 1200, 20000

    def consts(self):
        return {"Focus": core.tla_set([self.prop])}

    def scenarios(self, rng, quick, work):
        n = self.nq if quick else self.nt
        res = self.designed(rng, quick, work) + [gen_ui.scenario(rng, "r%d" % i, self.prop) for i in range(n)]
        res += [gen_ui.scenario(rng, "long%d" % i, self.prop, len=[400]) for i in range(3 if quick else 60)]
        if self.prop in ("D01", "D02", "D03"):
            res += [gen_ui.wide(rng, "w%d-%d" % (i, n), self.prop, n) for i in range(1 if quick else 10) for n in (40, 70, 130, 300)]
        if self.prop in ("L01", "L02", "L03", "L04"):
            res += [gen_ui.big(rng, "b%d-%d" % (i, n), self.prop, n, 50) for i in range(1 if quick else 10) for n in (30, 60, 130, 300)]
        for s in res:
            if rng.random() < .5:
                gen_ui.rewake(rng, s, .2)
        return res

    def designed(self, rng, quick, work):
        """scenarios from the state graph of the design"""
        return []

    def walks(self, rng, work, module, consts, maxlen, cap, conv):
        g, init = core.edges(module, work, consts)
        ws, cov, al = core.walks(g, init, rng, maxlen, cap)
        self.edges_cov += cov
        self.edges_all += al
        return [conv(rng, "%s%d" % (module[3:].lower(), i), w) for i, w in enumerate(ws)]

    def corrupt(self, rng, t):
        # take a node off the page
        def has(e):
            return any(n for h in e["hosts"] for n in h["k"] if not n["f"])

        def f(e):
            h = rng.choice([h for h in e["hosts"] if any(not n["f"] for n in h["k"])])
            del h["k"][rng.choice([i for i, n in enumerate(h["k"]) if not n["f"]])]
        return mutate_event(rng, t, "snap", f, has)


class D01(Ui):
    cap = 16000

    def designed(self, rng, quick, work):
        return self.walks(rng, work, "MC_Dom", {}, 9, self.cap if quick else None, gen_ui.dom_walk(self.prop))


class D02(D01):
    cap = 16000


class D03(D01):
    cap = 16000


class L01(Ui):
    def designed(self, rng, quick, work):
        c = {"NK": 3, "Shows": 1, "Sibs": "{}"}
        return self.walks(rng, work, "MC_List", c, 30, 8000 if quick else None, gen_ui.list_walk)


class L02(Ui):
    def designed(self, rng, quick, work):
        c = {"NK": 2, "Shows": 2} if quick else {"NK": 3, "Shows": 2, "LastPhase": 1}
        return self.walks(rng, work, "MC_List", c, 30, 8000 if quick else 150000, gen_ui.list_walk)


class L03(Ui):
    def designed(self, rng, quick, work):
        if quick:
            return self.walks(rng, work, "MC_Diff", {"NK": 4}, 30, 5000, gen_ui.diff_walk)
        return self.walks(rng, work, "MC_Diff", {"NK": 5}, 60, None, gen_ui.diff_walk)


class L04(Ui):
    mc = [("MC_Model", {"NK": 3, "Lags": 2}, {"NK": 3, "Lags": 4})]

    def designed(self, rng, quick, work):
        res = []
        for nk, num, depth in ((3, 150, 30), (6, 150, 40)) if quick else ((3, 1500, 40), (4, 1500, 40), (6, 1500, 60)):
            bs = core.behaviours("MC_Model", work, {"NK": nk, "Lags": 9}, num, depth, rng.randrange(10 ** 6))
            res += [gen_ui.model_walk(rng, "model%d-%d" % (nk, i), b) for i, b in enumerate(bs)]
        for i in range(1 if quick else 12):
            res += [gen_ui.mchurn(rng, "churn%d-%d" % (j, i), n, 60, upd) for j, (n, upd) in enumerate([(6, .3), (8, .4), (10, .2), (12, .5), (16, .3), (20, .15), (10, .5), (14, .4)] * 12)]
            res += [gen_ui.mchurn(rng, "history%d-%d" % (n, i), n, steps, upd) for n, steps, upd in ((8, 600, .3), (20, 800, .1), (30, 1500, .02))]
        return res


class S01(Ui):
    def designed(self, rng, quick, work):
        return self.walks(rng, work, "MC_Slot", {"MaxSets": 4 if quick else 5}, 25, 12000 if quick else None, gen_ui.slot_walk)


CHECKS = {p: globals().get(p, Ui) for p in gen_ui.PROFILES}
