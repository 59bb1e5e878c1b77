"""Check M01: the css! macro."""
import copy, fcntl, json, os, re, subprocess
import core, gen_css
from check import Check, mutate_event
from core import ToolError

TRIPLE = "x86_64-unknown-linux-gnu"


def literal(s, raw):
    if raw:
        n = 1
        while '"' + "#" * n in s:
            n += 1
        return "r%s\"%s\"%s" % ("#" * n, s, "#" * n)
    return '"' + "".join({'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t"}.get(c, c) for c in s) + '"'


def ident(n):
    return n.replace("-", "_")


class Css(Check):
    harness, spec = "css", "CssTrace"
    mc = [("MC_Css", {"D": 6}, {"D": 9})]
    notes = ("sheets within the grammar of Css.tla: class names without escapes that are Rust identifiers once dashes are underscores; no native CSS nesting",)
    trust = ("Trusted: rustc's and the mock's expansion of #[wasm_bindgen(inline_js)], node for what the JavaScript does, the page stub of lib/runjs.mjs, TLC.")

    def scenarios(self, rng, quick, work):
        res = [gen_css.sheet(rng, "s0", [])]
        for d in (4,) if quick else (4, 6):
            g, init = core.edges("MC_Css", work, {"D": d})
            for rep in range(3 if quick else 8):
                ws, cov, al = core.walks(g, init, rng, 40)
                if rep == 0:
                    self.edges_cov += cov
                    self.edges_all += al
                res += [gen_css.sheet(rng, "m%d_%d_%d" % (d, rep, i), [o[0] for o in w]) for i, w in enumerate(ws)]
        g, init = core.edges("MC_Css", work, {"D": 7})
        for i in range(1200 if quick else 6000):
            n = rng.choice([3, 6, 10, 20, 40, 80])
            res.append(gen_css.sheet(rng, "r%d" % i, gen_css.walk(g, init, rng, n, rng.choice(gen_css.WEIGHTS))))
        for i in range(6 if quick else 40):
            # large sheets with many class names
            names = ["k%d%s" % (j, rng.choice(["", "-x", "_y", "-z-%d" % j])) for j in range(rng.choice([20, 120, 300]))]
            res.append(gen_css.sheet(rng, "b%d" % i, gen_css.walk(g, init, rng, rng.choice([400, 1500]), rng.choice(gen_css.WEIGHTS)), names))
        for i, s in enumerate(rng.sample([s for s in res if s["ev"]], 12 if quick else 100) + [s for s in res if s["id"][0] == "b"]):
            res += gen_css.variants(rng, "v%d" % i, s)
        return list({s["text"]: s for s in res}.values())

    # ------------------------------------------------------------ building
    def gen(self, path, scs):
        """the generated part of the program; returns {line: id}"""
        out, lines = [], {}
        cands = sorted({ident(c) for s in scs for c in s["cand"]})
        out.append("#[allow(non_upper_case_globals, dead_code)] mod dflt { %s }" % " ".join("pub const %s: &str = \"<none>\";" % c for c in cands))
        n = out[0].count("\n") + 1
        for s in scs:
            m = "s_" + s["id"]
            body = ["#[allow(non_upper_case_globals, dead_code, unused_imports, mixed_script_confusables, uncommon_codepoints)] mod %s {" % m, "use super::dflt::*;",
                    "::async_ui_web::css!(%s);" % literal(s["text"], s["raw"]),
                    "pub fn __get() -> Vec<(&'static str, &'static str)> { vec![%s] }"
                    % ", ".join("(%s, %s)" % (json.dumps(c, ensure_ascii=False), ident(c)) for c in s["cand"]), "}"]
            t = "\n".join(body)
            for k in range(t.count("\n") + 1):
                lines[n + 1 + k] = s["id"]
            n += t.count("\n") + 1
            out.append(t)
        out.append("fn scenarios() -> Vec<(&'static str, Vec<(&'static str, &'static str)>)> { vec![%s] }"
                   % ", ".join('("s_%s", s_%s::__get())' % (s["id"], s["id"]) for s in scs))
        with open(path, "w") as f:
            f.write("\n".join(out) + "\n")
        return lines

    def cargo(self, work, scs):
        d = os.path.join(core.VERIF, "harness", self.harness)
        td = os.path.join(core.VERIF, "target", self.harness)
        os.makedirs(td, exist_ok=True)
        path = work.path("gen.rs")
        lines = self.gen(path, scs)
        env = core.cargo_env()
        env.update(CARGO_TARGET_DIR=td, CSS_GEN=path)
        with open(os.path.join(td, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            p = subprocess.run(["cargo", "build", "--offline", "--target", TRIPLE, "--message-format=json"], cwd=d, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if p.returncode == 0:
                q = subprocess.run([os.path.join(td, TRIPLE, "debug", "hcss")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
                if q.returncode:
                    raise ToolError("hcss failed:\n" + q.stderr[-3000:])
                return {r["id"][2:]: r for r in map(json.loads, q.stdout.splitlines())}, {}
        bad, other = {}, []

        def spans(sp):
            while sp:
                yield sp
                sp = (sp.get("expansion") or {}).get("span")
        for line in p.stdout.splitlines():
            try:
                o = json.loads(line)
            except ValueError:
                continue
            m = o.get("message") or {}
            if o.get("reason") != "compiler-message" or m.get("level") != "error":
                continue
            at = [lines[s["line_start"]] for sp in m.get("spans", []) for s in spans(sp) if s["file_name"] == path and s["line_start"] in lines]
            if at:
                bad[at[0]] = m["message"]
            else:
                other.append(m.get("rendered") or m.get("message"))
        if not bad:
            raise ToolError("cargo build of harness css failed:\n%s\n%s" % ("\n".join(other)[-4000:], p.stderr[-2000:]))
        return None, bad

    def build(self):
        w = core.Work()
        try:
            self.cargo(w, [])
        finally:
            w.close()

    def collect(self, _bin, work, scs):
        ok, broken, got = list(scs), {}, None
        for _ in range(4):
            got, bad = self.cargo(work, ok)
            if got is not None:
                break
            broken.update(bad)
            ok = [s for s in ok if s["id"] not in bad]
        if got is None:
            got, ok = {}, []
        inp = "".join(json.dumps({"id": s["id"], "js": got[s["id"]]["js"]}) + "\n" for s in ok)
        p = subprocess.run(["node", os.path.join(core.VERIF, "lib", "runjs.mjs")], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        if p.returncode:
            raise ToolError("node failed:\n" + p.stderr[-3000:])
        ran = {r["id"]: r for r in map(json.loads, p.stdout.splitlines())}
        res, sfx = [], {}
        for s in scs:
            ev = list(s["ev"])
            if s["id"] in broken:
                ev.append({"op": "nocompile", "msg": broken[s["id"]][:300]})
            elif s["id"] in got:
                consts = dict(got[s["id"]]["consts"])
                used = [e["x"] for e in s["ev"] if e["op"] == "class"]
                v = consts[used[0]] if used else ""
                x = v[len(used[0]):] if used and v.startswith(used[0]) else ""
                if ran[s["id"]]["error"]:
                    ev.append({"op": "jserror", "msg": ran[s["id"]]["error"][:300]})
                ev.append({"op": "sheet", "pages": ran[s["id"]]["pages"], "consts": consts, "sfx": x})
                if x:
                    sfx[s["text"]] = x
            else:
                continue
            res.append({"id": s["id"], "ev": ev})
        if sfx and len(scs) > 1:
            scs.append({"id": "all", "ev": []})
            res.append({"id": "all", "ev": [{"op": "suffixes", "list": list(sfx.values())}]})
        return res

    def corrupt(self, rng, t):
        k = rng.randrange(3)
        if k == 0:
            return mutate_event(rng, t, "sheet", lambda e: e.update(pages=[e["pages"][0] + " "]))
        if k == 1:
            t = copy.deepcopy(t)
            c = [i for i, e in enumerate(t["ev"]) if e["op"] == "class"]
            if not c:
                return None
            t["ev"][rng.choice(c)]["x"] += "q"
            return t
        return mutate_event(rng, t, "sheet", lambda e: e["consts"].update({rng.choice(sorted(e["consts"])): "zz"}))


CHECKS = {"M01": Css}
