"""Checks C01-C04."""
import json
import core, gen_comb
from check import Check, mutate_event


class Comb(Check):
    harness, spec = "dom", "CombTrace"
    mc = [("MC_Comb", None, {"N": 3, "NW": 2})]
    kinds = gen_comb.CORE
    nq = 1500

    def consts(self):
        return {"Focus": core.tla_set([self.prop])}

    def scenarios(self, rng, quick, work):
        res = []
        for k in gen_comb.CORE:
            n, nw = (2, 1) if quick else (3, 1)
            g, init = core.edges("MC_Comb", work, {"N": n, "NW": nw, "KINDS": '{"%s"}' % k})
            ws, cov, al = core.walks(g, init, rng, 30, 6000 if quick else 40000)
            self.edges_cov += cov
            self.edges_all += al
            res += [gen_comb.from_walk(rng, "mc-%s%d" % (k, i), w, n) for i, w in enumerate(ws)]
        n = self.nq if quick else 20000
        res += [gen_comb.scenario(rng, "r%d" % i, self.kinds) for i in range(n)]
        res += [gen_comb.scenario(rng, "b%d" % i, self.kinds, small=False, depth=0) for i in range(n // 6)]
        return res


class C01(Comb):
    def corrupt(self, rng, t):
        return mutate_event(rng, t, "ret", lambda e: e.update(r="pend", vs=[]), lambda e: e["r"] != "pend")


class C02(Comb):
    def corrupt(self, rng, t):
        # suppress a parent wake that an idle combinator owed
        import copy
        t2 = copy.deepcopy(t)
        ev = t2["ev"]
        for k, e in enumerate(ev):
            if e["op"] == "ret" and e["c"] == 1 and e["r"] == "pend" and k + 2 < len(ev) and ev[k + 1]["op"] == "wstart" and ev[k + 2]["op"] == "pwake":
                i = ev[k + 1]["i"]
                fin = any(x["op"] == "cend" and x["c"] == 1 and x["i"] == i and x["r"] != "pend" for x in ev[:k])
                woken = False
                for x in reversed(ev[:k]):
                    if x["op"] == "poll" and x["c"] == 1:
                        break
                    woken |= x["op"] == "pwake" and x["c"] == 1
                if not fin and not woken and ev[k + 1]["c"] == 1:
                    del ev[k + 2]
                    return t2
        return None


class C03(Comb):
    kinds = gen_comb.CORE + ["meanwhile", "pend_after", "select"]

    def corrupt(self, rng, t):
        import copy
        c = [i for i, e in enumerate(t["ev"]) if e["op"] == "cdrop"]
        if not c:
            return None
        t = copy.deepcopy(t)
        del t["ev"][rng.choice(c)]
        return t


class C04(Comb):
    kinds = ["meanwhile", "pend_after", "select"]
    mc = []

    def scenarios(self, rng, quick, work):
        core.model_check("MC_Comb", work, {"N": 2})
        n = 2000 if quick else 20000
        res = [gen_comb.scenario(rng, "r%d" % i, self.kinds) for i in range(n)]
        res += [gen_comb.scenario(rng, "m%d" % i, self.kinds + gen_comb.CORE) for i in range(n // 3)]
        return res

    def corrupt(self, rng, t):
        ks = {x[0]: x[1] for x in t["insts"]}
        return mutate_event(rng, t, "ret", lambda e: e.update(vs=[424242]), lambda e: e["r"] != "pend" and ks[e["c"]] in self.kinds)


CHECKS = {"C01": C01, "C02": C02, "C03": C03, "C04": C04}
