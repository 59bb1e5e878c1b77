"""Check O01."""
import core, gen_dropdown
from check import Check, mutate_event


class O01(Check):
    harness, spec = "dom", "DropdownTrace"

    def scenarios(self, rng, quick, work):
        res = []
        for nk, cap in ((2, None), (3, 25000)) if quick else ((3, None), (4, 200000)):
            g, init = core.edges("MC_Dropdown", work, {"NK": nk})
            ws, cov, al = core.walks(g, init, rng, 80, cap)
            self.edges_cov += cov
            self.edges_all += al
            res += [gen_dropdown.from_walk(rng, "mc%d-%d" % (nk, i), w) for i, w in enumerate(ws)]
        return res + [gen_dropdown.scenario(rng, "r%d" % i) for i in range(800 if quick else 12000)] + [
            gen_dropdown.scenario(rng, "b%d-%d" % (n, i), n) for i in range(2 if quick else 20) for n in (20, 70, 130, 300)]

    def corrupt(self, rng, t):
        def f(e):
            k = rng.choice(["val", "sel", "opts"])
            if k == "opts":
                e["opts"] = e["opts"][1:]
            else:
                e[k] = 0 if e[k] > 0 else 1
        return mutate_event(rng, t, "upd", f, lambda e: len(e["opts"]) > 1)


CHECKS = {"O01": O01}
