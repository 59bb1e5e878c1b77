"""Check H01."""
import core, gen_html
from check import Check, mutate_event


class Html(Check):
    harness, spec = "dom", "HtmlTrace"
    mc = [("MC_Html", {"NC": 2}, {"NC": 3})]

    def scenarios(self, rng, quick, work):
        g, init = core.edges("MC_Html", work, {"NC": 2})
        ws, cov, al = core.walks(g, init, rng, 60)
        self.edges_cov, self.edges_all = cov, al
        res = [gen_html.from_walk(rng, "mc%d" % i, w) for i, w in enumerate(ws)]
        res += [gen_html.every(rng, "k-" + k, k) for k in gen_html.COMPONENTS + gen_html.INPUTS + gen_html.CUSTOM]
        res += [gen_html.scenario(rng, "r%d" % i) for i in range(1500 if quick else 15000)]
        return res

    def corrupt(self, rng, t):
        return mutate_event(rng, t, "cls", lambda e: e["cls"][0].append("zz") if e["cls"] else None, lambda e: bool(e["cls"]))


CHECKS = {"H01": Html}
