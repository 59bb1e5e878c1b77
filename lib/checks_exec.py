"""Check R01."""
import copy
import core, gen_exec
from check import Check, mutate_event


class R01(Check):
    harness, spec = "dom", "ExecTrace"
    mc = [("MC_Exec", {"NT": 2, "NTimers": 3, "NActs": 2}, {"NT": 3, "NTimers": 3, "NActs": 2})]

    def scenarios(self, rng, quick, work):
        g, init = core.edges("MC_Exec", work, {"NT": 2, "NTimers": 2, "NActs": 1} if quick else {"NT": 3, "NTimers": 2, "NActs": 1})
        ws, self.edges_cov, self.edges_all = core.walks(g, init, rng, 60, None if quick else 100000)
        res = [gen_exec.from_walk(rng, "mc%d" % i, w) for i, w in enumerate(ws)]
        n = 3500 if quick else 30000
        res += [gen_exec.scenario(rng, "r%d" % i, core=i % 4 == 0) for i in range(n)]
        res += [gen_exec.scenario(rng, "b%d-%d" % (nt, i), n=60, nt=nt) for i in range(1 if quick else 10) for nt in (30, 70, 150, 300)]
        return res

    def corrupt(self, rng, t):
        # a task is polled although nobody woke it
        t = copy.deepcopy(t)
        c = [k for k, e in enumerate(t["ev"]) if e["op"] == "polled"]
        if not c:
            return None
        k = rng.choice(c)
        e = t["ev"][k]
        if any(x["op"] in ("wake", "spawn", "sched") for x in t["ev"][max(0, k - 8):k]):
            return None
        t["ev"][k + 1:k + 1] = [dict(op="poll", i=e["i"], n=e["n"]), dict(op="polled", i=e["i"], done=False, n=e["n"])]
        return t


CHECKS = {"R01": R01}
