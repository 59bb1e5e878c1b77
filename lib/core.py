"""Machinery shared by all checks: building harnesses, running scenarios, TLC model checking,
scenario generation from TLC's state graph, and trace validation with TLC."""
import collections, concurrent.futures as cf, fcntl, hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
REPO = "/repo"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    """the machinery itself failed (exit 2)"""


def log(*a):
    print(*a, flush=True)


class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vcheck_")

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------ building
def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.99.0-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    for k in ("CARGO_BUILD_TARGET", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


def build(h):
    """cargo build of /verif/harness/<h> against /repo's working tree; returns the binary."""
    d = os.path.join(VERIF, "harness", h)
    td = os.path.join(VERIF, "target", h)
    os.makedirs(td, exist_ok=True)
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = td
    with open(os.path.join(td, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "--target", "x86_64-unknown-linux-gnu"], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError("cargo build of harness %s failed:\n%s" % (h, p.stdout[-6000:]))
    return os.path.join(td, "x86_64-unknown-linux-gnu", "debug", "h" + h)


# ------------------------------------------------------------------ running scenarios
def _run_chunk(args):
    binary, wd, k, scs, timeout = args
    sin, out = os.path.join(wd, "sc%d.jsonl" % k), os.path.join(wd, "tr%d.jsonl" % k)
    with open(sin, "w") as f:
        for s in scs:
            f.write(json.dumps(s) + "\n")
    if os.path.exists(out):
        os.remove(out)
    open(out, "w").close()
    start, notes, hangs = 0, [], 0
    extra = {}
    env = dict(os.environ, VHARNESS_TIMEOUT=str(timeout))
    while start < len(scs):
        try:
            p = subprocess.run([binary, sin, out, str(start)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env,
                               timeout=600, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30)))
        except subprocess.TimeoutExpired:
            raise ToolError("harness timed out")
        if p.returncode == 0:
            break
        try:
            at = int(open(out + ".at").read())
        except Exception:
            raise ToolError("harness failed before its first scenario: " + p.stderr.decode(errors="replace")[-2000:])
        if p.returncode == 3:  # hangs: recorded by the harness itself
            hangs += 1
            if hangs >= 3:
                for s in scs[at + 1:]:
                    extra[s["id"]] = None  # not run
                break
            start = at + 1
            continue
        # the process died (abort, stack overflow, signal) during scenario `at`
        extra[scs[at]["id"]] = {"id": scs[at]["id"], "ev": [{"op": "abort", "code": p.returncode,
                                                             "msg": p.stderr.decode(errors="replace")[-400:]}]}
        start = at + 1
        if len(extra) > 20:
            for s in scs[start:]:
                extra[s["id"]] = None
            break
    got = {}
    for line in open(out):
        line = line.strip()
        if line:
            try:
                t = json.loads(line)
            except ValueError:
                continue  # cut off by an abort
            got[t["id"]] = t
    for k2, v in extra.items():
        if v is not None:
            got[k2] = v
    return got, [k2 for k2, v in extra.items() if v is None]


def run_scenarios(binary, work, scenarios, timeout=10, tag=""):
    """Returns traces (same order), each {id, ev, ...meta}; scenarios not run because of repeated hangs are left out."""
    n = max(1, min(NCPU, (len(scenarios) + 7) // 8))
    chunks = [scenarios[i::n] for i in range(n)]
    wd = work.path("run" + tag)
    os.makedirs(wd, exist_ok=True)
    got, missing = {}, []
    with cf.ThreadPoolExecutor(n) as ex:
        for g, m in ex.map(_run_chunk, [(binary, wd, i, c, timeout) for i, c in enumerate(chunks)]):
            got.update(g)
            missing += m
    shutil.rmtree(wd, ignore_errors=True)
    miss = set(missing)
    res = []
    for s in scenarios:
        if s["id"] in miss:
            continue
        if s["id"] not in got:
            # flushed output lost by a crash of a later scenario: run it alone
            g, _ = _run_chunk((binary, work.dir, 9999, [s], timeout))
            if s["id"] not in g:
                raise ToolError("no trace for scenario %s" % s["id"])
            got[s["id"]] = g[s["id"]]
        t = got[s["id"]]
        t.update(s.get("meta", {}))
        res.append(t)
    return res


# ------------------------------------------------------------------ TLC
def tlc(module, cfg_text, work, workers=4, env=None, heap="3g", timeout=800, args=(), cwd=SPECS):
    md = tempfile.mkdtemp(prefix="md_", dir=work.dir)
    cfg = os.path.join(md, "m.cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + md, "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", md, "-noGenerateSpecTE", "-config", cfg] + list(args) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout.decode(errors="replace")


def cfg_of(module):
    return open(os.path.join(SPECS, module + ".cfg")).read()


def set_consts(cfg, consts):
    for k, v in (consts or {}).items():
        cfg, n = re.subn(r"\b%s = (\{[^}]*\}|\S+)" % k, "%s = %s" % (k, v), cfg)
        if not n:
            raise ToolError("constant %s not in cfg" % k)
    return cfg


def tla_set(xs):
    return "{%s}" % ", ".join('"%s"' % x for x in xs)


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ","))
    m2 = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    if not m2:
        return None
    a, b = m2[-1]
    return int(a.replace(",", "")), int(b.replace(",", ""))


def model_check(module, work, consts=None, timeout=700, workers=NCPU, cfg=None):
    """Exhaustive TLC run; the design must satisfy its invariants."""
    c = set_consts(cfg if cfg is not None else cfg_of(module), consts)
    rc, out = tlc(module, c, work, workers=workers, timeout=timeout, heap="10g")
    st = stats(out)
    if rc != 0 or st is None or "No error has been found" not in out:
        raise ToolError("model checking of %s failed (rc %d):\n%s" % (module, rc, out[-3000:]))
    CHECKED.append({"module": module, "consts": consts or {}, "transitions": st[0], "states": st[1]})
    log("design: %s %s: %d states, %d transitions, invariants hold" % (module, consts, st[1], st[0]))


def edges(module, work, consts=None, timeout=600, cfg=None):
    """All edges of TLC's state graph: {state: [(op, state')]}, initial state."""
    c = set_consts(cfg if cfg is not None else cfg_of(module), consts) + "\nACTION_CONSTRAINT EdgeOut\n"
    rc, out = tlc(module, c, work, workers=1, timeout=timeout, heap="6g")
    if rc != 0:
        raise ToolError("edge generation of %s failed:\n%s" % (module, out[-3000:]))
    g, ids, init = collections.defaultdict(list), {}, None
    seen = set()
    for line in out.splitlines():
        if not line.startswith('"EDGE '):
            continue
        a, op, b = json.loads(json.loads(line)[5:])
        ia = ids.setdefault(str(a), len(ids))
        ib = ids.setdefault(str(b), len(ids))
        if init is None:
            init = ia
        key = (ia, json.dumps(op, sort_keys=True), ib)
        if key in seen:
            continue
        seen.add(key)
        g[ia].append((op, ib))
    st = stats(out)
    if "No error has been found" not in out or st is None:
        raise ToolError("model checking of %s failed:\n%s" % (module, out[-3000:]))
    CHECKED.append({"module": module, "consts": consts or {}, "transitions": st[0], "states": st[1]})
    log("design: %s %s: %d states, %d transitions, invariants hold" % (module, consts, st[1], st[0]))
    return g, init


def behaviours(module, work, consts, num, depth, seed, timeout=300):
    """Random behaviours of the specification (TLC's simulator), as sequences of operations."""
    c = set_consts(cfg_of(module), consts) + "\nACTION_CONSTRAINT EdgeOut\n"
    rc, out = tlc(module, c, work, workers=1, timeout=timeout, heap="2g",
                  args=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)))
    if "Error:" in out or rc not in (0,):
        raise ToolError("simulation of %s failed (rc %d):\n%s" % (module, rc, out[-3000:]))
    res, cur, group, at, init = [], [], {}, None, None
    n = 0
    for line in out.splitlines():
        if not line.startswith('"EDGE '):
            continue
        a, op, b = json.loads(json.loads(line)[5:])
        a, b = str(a), str(b)
        n += 1
        if init is None:
            init = at = a
        if a != at:
            # the simulator went on: by one of the steps seen, or to a new behaviour
            if a in group:
                cur.append(group[a])
            else:
                res.append(cur)
                cur = []
            at, group = a, {}
        group[b] = op
    res.append(cur)
    res = [r for r in res if r]
    CHECKED.append({"module": module, "consts": dict(consts or {}, simulated_behaviours=len(res)), "transitions": n, "states": sum(map(len, res))})
    return res


CHECKED = []


def walks(g, init, rng, maxlen, max_events=None):
    """Walks from the initial state that together traverse every edge (as far as max_events allows)."""
    todo = {s: list(range(len(es))) for s, es in g.items()}
    for v in todo.values():
        rng.shuffle(v)
    left = sum(len(v) for v in todo.values())
    total = left
    # reverse graph for distances to states with untraversed edges
    res, n = [], 0
    while left and (max_events is None or n < max_events):
        s, w = init, []
        while len(w) < maxlen:
            if todo.get(s):
                k = todo[s].pop()
                left -= 1
            else:
                # breadth-first search for the nearest state with work left
                prev, q, goal = {s: None}, collections.deque([s]), None
                while q and goal is None:
                    u = q.popleft()
                    for k2, (_, v) in enumerate(g.get(u, ())):
                        if v not in prev:
                            prev[v] = (u, k2)
                            if todo.get(v):
                                goal = v
                                break
                            q.append(v)
                if goal is None:
                    break
                path = []
                v = goal
                while prev[v] is not None:
                    path.append(prev[v])
                    v = prev[v][0]
                path.reverse()
                if w and len(w) + len(path) + 1 > maxlen:
                    break
                for (u, k2) in path:
                    w.append(g[u][k2][0])
                s = goal
                continue
            op, s2 = g[s][k]
            w.append(op)
            s = s2
        if not w:
            break
        res.append(w)
        n += len(w)
    return res, total - left, total


# ------------------------------------------------------------------ trace validation
def _validate_chunk(args):
    module, work, trs, consts, timeout = args
    f = tempfile.NamedTemporaryFile("w", dir=work.dir, suffix=".ndjson", delete=False)
    for t in trs:
        f.write(json.dumps(t) + "\n")
    f.close()
    e = dict(TRACES=f.name)
    rc, out = tlc(module, set_consts(cfg_of(module), consts), work, workers=1, env=e, timeout=timeout, heap="2500m")
    os.remove(f.name)
    acc = {int(x) for x in re.findall(r'^"ACCEPT (\d+)"', out, re.M)}
    st = stats(out)
    if rc != 0 or st is None:
        # an evaluation error: fall back to one trace at a time to find the culprit
        return acc, st, rc, out
    return acc, st, rc, out


def validate(module, work, traces, consts=None, timeout=700):
    """Returns (list of indices of rejected traces, transitions, states)."""
    if not traces:
        return [], 0, 0
    n = max(1, min(NCPU, (len(traces) + 3) // 4))
    # balance by events
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]["ev"]))
    chunks = [order[i::n] for i in range(n)]
    rejected, tr, stn = [], 0, 0
    with cf.ThreadPoolExecutor(n) as ex:
        jobs = [(module, work, [traces[i] for i in c], consts, timeout) for c in chunks]
        for c, (acc, st, rc, out) in zip(chunks, ex.map(_validate_chunk, jobs)):
            if rc != 0 or st is None:
                bad = _isolate(module, work, [(i, traces[i]) for i in c if c.index(i) + 1 not in acc], consts, timeout, out)
                rejected += bad
                continue
            tr += st[0]
            stn += st[1]
            rejected += [i for k, i in enumerate(c) if k + 1 not in acc]
    return sorted(rejected), tr, stn


def _isolate(module, work, its, consts, timeout, out):
    """TLC stopped with an evaluation error in this chunk. A record the specification cannot even
    interpret (missing field, wrong shape) is a rejection of that trace; find which ones."""
    bad = []
    for i, t in its[:40]:
        acc, st, rc, o = _validate_chunk((module, work, [t], consts, timeout))
        if 1 not in acc:
            if rc != 0 and not any(e.get("op") in ("panic", "hang", "abort") for e in t["ev"]):
                if "Parsing or semantic analysis failed" in o or "OutOfMemory" in o:
                    raise ToolError(o[-3000:])
            bad.append(i)
            if len(bad) >= 5:
                break
    if not bad:
        raise ToolError("TLC failed on %s:\n%s" % (module, out[-3000:]))
    return bad


def explain(module, work, trace, consts=None):
    """Position of the first event no specification step explains, and TLC's last state."""
    f = work.path("explain.ndjson")
    with open(f, "w") as h:
        h.write(json.dumps(trace) + "\n")
    e = dict(TRACES=f)
    cfg = set_consts(cfg_of(module), consts).replace("CHECK_DEADLOCK FALSE", "CHECK_DEADLOCK TRUE")
    rc, out = tlc(module, cfg, work, workers=1, env=e, timeout=300)
    ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
    pos = max(int(x) for x in ls) if ls else 1
    last = out.rsplit("State ", 1)[-1][:3000] if "State " in out else out[-1500:]
    return pos, last


def accepted(trs, rejected):
    r = set(rejected)
    return [t for i, t in enumerate(trs) if i not in r]


def sha(o):
    return hashlib.sha256(json.dumps(o, sort_keys=True).encode()).hexdigest()[:12]
