"""Checks E01, E02."""
import copy, json
import core, gen_event
from check import Check, mutate_event


class Ev(Check):
    harness, spec = "dom", "EventsTrace"
    mc = [("MC_Events", None, {"NS": 2, "NW": 2, "NE": 3})]

    def consts(self):
        return {"Focus": core.tla_set([self.prop])}

    def scenarios(self, rng, quick, work):
        res = []
        for c, cap in (({"NS": 1, "NW": 2, "NE": 3}, None), ({"NS": 2, "NW": 1 if quick else 2, "NE": 2}, 16000 if quick else 150000)):
            g, init = core.edges("MC_Events", work, c)
            ws, cov, al = core.walks(g, init, rng, 60, cap)
            self.edges_cov += cov
            self.edges_all += al
            res += [gen_event.from_walk(rng, "mc%d-%d" % (c["NS"], i), w) for i, w in enumerate(ws)]
        for k in range(2 if quick else 20):
            res += [gen_event.scenario(rng, "e%d-%s" % (k, ty), ty) for ty in gen_event.NAMES]
        res += [gen_event.crowd(rng, "crowd%d-%d" % (i, n), n) for i in range(1 if quick else 10) for n in (20, 70, 140)]
        res += [gen_event.scenario(rng, "r%d" % i) for i in range(2500 if quick else 25000)]
        return res


class E01(Ev):
    def corrupt(self, rng, t):
        return mutate_event(rng, t, "polled", lambda e: e.update(r=0 if e["r"] else 4242))


class E02(Ev):
    def corrupt(self, rng, t):
        t = copy.deepcopy(t)
        c = [i for i, e in enumerate(t["ev"]) if e["op"] in ("reg", "unreg")]
        if not c:
            return None
        i = rng.choice(c)
        if t["ev"][i]["op"] == "reg" and rng.random() < 0.5:
            t["ev"].insert(i, dict(t["ev"][i], f=4242))
        else:
            del t["ev"][i]
        return t


CHECKS = {"E01": E01, "E02": E02}
