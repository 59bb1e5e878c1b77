"""The flow every check follows."""
import collections, copy, json, os, random, sys, threading, time
import core
from core import log, ToolError, VERIF


def mutate_event(rng, t, op, f, cond=lambda e: True):
    """Copy of trace t with one event of kind `op` falsified by f; None if there is none."""
    c = [i for i, e in enumerate(t["ev"]) if e.get("op") == op and cond(e)]
    if not c:
        return None
    t = copy.deepcopy(t)
    f(t["ev"][rng.choice(c)])
    return t


class Check:
    harness = spec = None
    mc = []            # [(module, quick constants, thorough constants)]
    timeout = 10       # seconds per scenario
    edges_cov = edges_all = 0
    notes = ()
    trust = "Trusted: the harness (public API calls, event log), TLC, rustc."

    def __init__(self, prop):
        self.prop = prop

    def consts(self):
        return {}

    def scenarios(self, rng, quick, work):
        raise NotImplementedError

    def build(self):
        return core.build(self.harness)

    def collect(self, binary, work, scs):
        """run the scenarios on the real code; returns the recorded traces"""
        return core.run_scenarios(binary, work, scs, self.timeout)

    def corrupt(self, rng, t):
        return None

    def describe(self, ev):
        return ev


def known_findings():
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("open:"):
                kv = dict(x.split("=", 1) for x in line[5:].split(" -- ")[0].split() if "=" in x)
                res.append((kv.get("property"), kv.get("scenario"), line.split(" -- ", 1)[-1]))
    return res


def run(check, tier, seed):
    t0 = time.time()
    quick = tier == "quick"
    prop = check.prop
    work = core.Work()
    rc = 0
    try:
        box = {}

        def bg():
            try:
                box["bin"] = check.build()
            except Exception as e:  # noqa
                box["err"] = e
        th = threading.Thread(target=bg)
        th.start()
        for module, qc, tc in check.mc:
            c = qc if quick else tc
            if c is not None:
                core.model_check(module, work, c)
        rng = random.Random("%s/%d/%s" % (prop, seed, tier))
        scs = check.scenarios(rng, quick, work)
        th.join()
        if "err" in box:
            raise box["err"]
        t1 = time.time()
        log("scenarios: %d (spec edges covered %d of %d); harness built; %.0f s" % (len(scs), check.edges_cov, check.edges_all, t1 - t0))
        consts = check.consts()
        traces = check.collect(box["bin"], work, scs)
        mcs = core.CHECKED
        for t in traces:
            for e in t["ev"]:
                if e.get("op") == "panic" and "common/src/json.rs" in e.get("msg", ""):
                    raise ToolError("bad scenario %s: %s" % (t["id"], e))
        t2 = time.time()
        nev = sum(len(t["ev"]) for t in traces)
        rej, tr, st = core.validate(check.spec, work, traces, consts)
        t3 = time.time()
        log("traces: %d, events: %d, accepted: %d; run %.0f s, validated %.0f s" % (len(traces), nev, len(traces) - len(rej), t2 - t1, t3 - t2))
        byid = {s["id"]: s for s in scs}
        violations = 0
        known = known_findings()
        rdir = os.path.join(VERIF, "replay", prop)
        shown = 0
        for i in rej:
            t = traces[i]
            sc = byid[t["id"]]
            h = core.sha(sc)
            k = [x for x in known if x[0] == prop and x[1] == h]
            if k:
                log("KNOWN-FINDING: property=%s %s" % (prop, k[0][2]))
                continue
            violations += 1
            if shown >= 3:
                continue
            shown += 1
            os.makedirs(rdir, exist_ok=True)
            f = os.path.join(rdir, "%s-%s.json" % (t["id"], h))
            try:
                pos, last = core.explain(check.spec, work, t, consts)
            except ToolError as e:
                pos, last = 0, str(e)
            json.dump({"property": prop, "spec": check.spec, "consts": consts,
                       "scenario": sc, "trace": t, "rejected_event": pos,
                       "event": t["ev"][pos - 1] if 0 < pos <= len(t["ev"]) else None, "spec_state": last}, open(f, "w"), indent=1)
            log("VIOLATION property=%s replay=%s" % (prop, f))
            if 0 < pos <= len(t["ev"]):
                log("  event %d of %d has no explanation in %s: %s" % (pos, len(t["ev"]), check.spec, json.dumps(t["ev"][pos - 1])[:600]))
        if violations:
            rc = 1
        ok = core.accepted(traces, rej)
        # the binding: falsified traces must be rejected
        corrupted = []
        for t in rng.sample(ok, min(len(ok), 200)):
            c = check.corrupt(rng, t)
            if c:
                corrupted.append(c)
            if len(corrupted) >= 8:
                break
        self_rej = 0
        if corrupted:
            r, _, _ = core.validate(check.spec, work, corrupted, consts)
            self_rej = len(r)
            if self_rej < len(corrupted) and rc == 0:
                raise ToolError("self-test: %d of %d falsified traces were accepted" % (len(corrupted) - self_rej, len(corrupted)))
        elif rc == 0:
            raise ToolError("self-test: nothing to falsify")
        kinds = collections.Counter(e.get("op", "?") for t in ok for e in t["ev"])
        s0 = min(ok, key=lambda t: len(t["ev"])) if ok else None
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": sum(m["states"] for m in mcs),
                "transitions": sum(m["transitions"] for m in mcs),
                "traces_validated_against_impl": len(traces),
                "events_validated": nev,
                "traces_rejected": len(rej),
                "trace_states": st,
                "spec_edges_total": check.edges_all,
                "spec_edges_driven": check.edges_cov,
                "events_by_kind": dict(kinds),
                "falsified_traces_rejected": self_rej,
                "models": mcs,
                "samples": [{"scenario": byid[s0["id"]], "trace": s0}] if s0 else [],
            },
            "assumptions": list(check.notes),
            "violations": violations,
            "wall_s": round(time.time() - t0, 1),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        log("%s %s: %s (%.0f s)" % (prop, tier, "VIOLATED" if rc else "held", time.time() - t0))
    except ToolError as e:
        log("ERROR: " + str(e))
        rc = 2
    finally:
        work.close()
    return rc
