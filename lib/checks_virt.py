"""Check L05."""
import core, gen_virt
from check import Check, mutate_event


class L05(Check):
    harness, spec = "dom", "VirtTrace"

    def scenarios(self, rng, quick, work):
        res = []
        cs = [dict(H=8, P=0, Q=0), dict(H=4, P=5, Q=0), dict(H=3, P=0, Q=40), dict(H=1, P=3, Q=3)]
        if not quick:
            cs = [dict(H=h, P=p, Q=q, Ns="{0, 1, 5, 12, 30}") for h in (1, 2, 3, 5, 8, 11) for p in (0, 5, 40) for q in (0, 40)]
        for j, c in enumerate(cs):
            g, init = core.edges("MC_Virt", work, c)
            ws, cov, al = core.walks(g, init, rng, 60, 5000 if quick else 20000)
            self.edges_cov += cov
            self.edges_all += al
            res += [gen_virt.from_walk("mc%d-%d" % (j, i), w, c) for i, w in enumerate(ws)]
        return res + [gen_virt.scenario(rng, "r%d" % i) for i in range(1000 if quick else 10000)]

    def corrupt(self, rng, t):
        def f(e):
            k = rng.choice(["items", "alive", "f"])
            if k == "f":
                e["f"] += 3000
            else:
                e[k] = e[k] + [[e[k][-1][1] + 7] * 2] if e[k] else [[0, 0]]
        return mutate_event(rng, t, "by", f, lambda e: e["shown"] and e["items"])


CHECKS = {"L05": L05}
