"""Shared machinery of the checks: build a harness from /repo's working tree, let TLC explore a
component specification, replay every transition into the real code, record histories of the real
code and let TLC validate them against the specification."""
import json, os, random, re, shutil, subprocess, sys, threading, time
from collections import deque
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
OUT = os.path.join(VERIF, "out")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The machinery (not the code under test) failed: exit 2."""


class Uncompilable(CheckError):
    """The program that uses the public API as the specification describes is rejected by the compiler."""
    def __init__(self, cmd, text):
        super().__init__("harness does not compile: " + cmd + "\n" + text[-4000:])
        self.text = text


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


# --------------------------------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            pass
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0


def tlc(workdir, module, cfg, env=None, workers=1, timeout=800, extra=(), heap=None, jprops=()):
    """module: text of the root module named MC; cfg: text."""
    os.makedirs(workdir, exist_ok=True)
    m = re.search(r"MODULE (\w+)", module).group(1)
    with open(os.path.join(workdir, m + ".tla"), "w") as f:
        f.write(module)
    with open(os.path.join(workdir, m + ".cfg"), "w") as f:
        f.write(cfg)
    meta = os.path.join(workdir, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    jopt = ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"] if workers == 1 and not heap else ["-XX:+UseParallelGC"]
    if heap:
        jopt.append("-Xmx" + heap)
    jopt.append("-Xss400m")
    cmd = ["java"] + jopt + ["-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + meta] + list(jprops) + [
        "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-nowarning", "-workers", str(workers), "-metadir", meta,
        "-fp", "1"] + list(extra) + [m + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC timed out after {timeout}s in {workdir}")
    out = p.stdout.decode("utf-8", "replace")
    shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(workdir, m + ".log"), "w") as f:
        f.write(out if len(out) < 2_000_000 else out[:200_000] + "\n...\n" + out[-200_000:])
    return Tlc(p.returncode, out, time.time() - t)


def bind(names):
    return "".join(f" M{k} <- {names.get(k, k)}\n" for k in ("Start", "Step", "Inv", "Safe"))


def explore_graph(workdir, spec, configs="Configs", timeout=800, names={}):
    """Exhaustive model check; returns (Tlc, inits, edges): inits [(state, a)], edges [(s, op, a, r, t)]
    with states as canonical JSON strings."""
    mod = f"---- MODULE MC ----\nEXTENDS {spec}, Machine\n====\n"
    cfg = ("SPECIFICATION MSpec\nCONSTANTS\n" + bind(names) + f" MMenu <- {names.get('Menu', 'Menu')}\n MConfigs <- {configs}\n"
           "VIEW MView\nINVARIANT MInvariant\nINVARIANT PrintInit\nPROPERTY StepIsSafe\n"
           "ACTION_CONSTRAINT PrintStep\nCHECK_DEADLOCK FALSE\n")
    r = tlc(workdir, mod, cfg, timeout=timeout)
    if r.rc != 0 or "No error has been found" not in r.out:
        raise CheckError(f"TLC exploration of {spec} failed (rc {r.rc}), see {workdir}/MC.log")
    inits, edges = [], []
    dec = json.JSONDecoder()
    for line in r.out.split("\n"):
        if line.startswith('"EDGE '):
            txt = json.loads(line)[5:]
            s, op, a, rr, t = json.loads(txt)
            edges.append((json.dumps(s), op, tuple(a), tuple(rr), json.dumps(t)))
        elif line.startswith('"INIT '):
            s, a = json.loads(json.loads(line)[5:])
            inits.append((json.dumps(s), tuple(a)))
    # the same edge may be generated by several disjuncts: keep one
    edges = list(dict.fromkeys(edges))
    return r, inits, edges


def validate_trace(workdir, spec, events, timeout=800, names={}):
    """events: list of dicts.  Returns (matched, Tlc)."""
    os.makedirs(workdir, exist_ok=True)
    path = os.path.join(workdir, "trace.ndjson")
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    mod = f"---- MODULE TV ----\nEXTENDS {spec}, Trace\n====\n"
    cfg = ("SPECIFICATION TSpec\nCONSTANTS\n" + bind(names) +
           "INVARIANT TInvariant\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n")
    r = tlc(workdir, mod, cfg, env={"VT_TRACE": path}, timeout=timeout)
    m = re.search(r'"MATCHED (\d+) OF (\d+)"', r.out)
    if r.rc != 0 or not m or int(m.group(2)) != len(events):
        raise CheckError(f"TLC trace validation of {spec} failed (rc {r.rc}), see {workdir}/TV.log")
    return int(m.group(1)), r


# ------------------------------------------------------------------------------------ harness
BASEFLAGS = ["-std=c++20", "-g1", "-w", "-fno-strict-aliasing"]
COMPILE_SEM = threading.Semaphore(7)


def compile_harness(src, exe, flags=(), asan=True, opt="-O1", extra_src=()):
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    cmd = ["g++"] + BASEFLAGS + [opt] + (["-fsanitize=address", "-fno-omit-frame-pointer"] if asan else []) + \
        ["-I" + REPO, "-I" + HARN] + list(flags) + [os.path.join(HARN, src)] + list(extra_src) + ["-o", exe]
    with COMPILE_SEM:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        text = p.stdout.decode("utf-8", "replace")
        if p.returncode == 1 and " error: " in text and "fatal error: " not in text and "internal compiler error" not in text:
            raise Uncompilable(" ".join(cmd), text)
        raise CheckError("harness does not compile: " + " ".join(cmd) + "\n" + text[-4000:])
    return exe


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:"
                            "hard_rss_limit_mb=3000:malloc_fill_byte=190:max_malloc_fill_size=100000:"
                            "detect_stack_use_after_return=0"}


def fmt_script(scenarios):
    out = []
    for sc in scenarios:
        for op, a in sc:
            out.append(op + "".join(" " + str(x) for x in a))
    return "\n".join(out) + "\n"


def run_driver(exe, scenarios, timeout=300, env=None):
    """Run all scenarios in one process.  Returns (events, failure): events is a flat list of
    {"op","a","r"}; failure is None or (index of the op without result, text)."""
    ops = [o for sc in scenarios for o in sc]
    e = dict(os.environ)
    e.update(ASAN_ENV)
    if env:
        e.update(env)
    text = fmt_script(scenarios).encode()
    try:
        p = subprocess.run([exe], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
        out, err, rc = p.stdout, p.stderr, p.returncode
        hung = False
    except subprocess.TimeoutExpired as x:
        out, err, rc, hung = x.stdout or b"", x.stderr or b"", -1, True
    lines = [ln for ln in out.decode("latin1").split("\n") if ln.startswith("=")]
    if out and not out.endswith(b"\n") and lines and len(lines) > 0 and out.decode("latin1").rsplit("\n", 1)[-1].startswith("="):
        lines.pop()   # torn last line
    evs = []
    for (op, a), ln in zip(ops, lines):
        evs.append({"op": op, "a": list(a), "r": [int(x) for x in ln[1:].split()]})
    if len(lines) == len(ops) and rc == 0:
        return evs, None
    etext = err.decode("latin1")
    if "HARNESS-ERROR" in etext:
        raise CheckError("harness reports: " + etext[-2000:])
    why = "timeout" if hung else f"exit status {rc}"
    m = re.search(r"ERROR: AddressSanitizer:? ([^\n]*)", etext)
    if m:
        why += ", AddressSanitizer: " + m.group(1)[:200]
    elif etext.strip():
        why += ", " + etext.strip().split("\n")[-1][:200]
    if len(lines) >= len(ops):   # failed at exit (destructors)
        return evs, (len(ops) - 1, "failed at exit: " + why)
    return evs, (len(lines), why)


# ------------------------------------------------------------------------------ graph coverage
def adjacency(edges):
    """state -> {(op, args): (allowed result(s), next state)}; None if nondeterministic."""
    adj = {}
    for s, op, a, r, t in edges:
        d = adj.setdefault(s, {})
        if (op, a) in d and d[(op, a)] != (r, t):
            r0, t0 = d[(op, a)]
            if t0 != t:
                return None
            # several results allowed, one next state
            r = (r0 if isinstance(r0, frozenset) else frozenset([r0])) | {r}
        d[(op, a)] = (r, t)
    return adj


def histories(inits, adj, rng, short=15000, walk=60000, size=4000000):
    """Further behaviours of the explored graph, because the implementation may remember more than the
    specification's state does: all histories from each initial state up to a length that keeps their
    total near `short` steps, then random walks of `walk` steps in all.  `size`: bound on result integers."""
    scen, used = [], 0
    share = max(200, short // max(1, len(inits)))

    def rlen(r):
        return sum(len(x) for x in r) // max(1, len(r)) if isinstance(r, frozenset) else len(r)
    keys = {s: list(d.items()) for s, d in adj.items()}
    for s0, a0 in inits:
        level, steps = [(s0, [("new", a0, ())])], 0
        while level:
            n = sum(len(keys.get(s, ())) for s, _ in level)
            cost = n * (len(level[0][1]) + 1)
            if not n:
                break
            if steps + cost > share:      # a sample of this length
                for _ in range(max(1, (share - steps) // (len(level[0][1]) + 1))):
                    s, sc = level[rng.randrange(len(level))]
                    if s in keys:
                        (op, a), (r, t) = keys[s][rng.randrange(len(keys[s]))]
                        scen.append(sc + [(op, a, r)])
                break
            nxt = [(t, sc + [(op, a, r)]) for s, sc in level for (op, a), (r, t) in keys.get(s, ())]
            steps += cost
            level = nxt
            scen += [sc for _, sc in nxt]
    used = 0
    n = 0
    live = [x for x in inits if x[0] in adj]
    while live and n < walk and used < size:
        s, a0 = live[rng.randrange(len(live))]
        sc = [("new", a0, ())]
        length = rng.choice([5, 12, 30, 60] * 5 + [600])
        lazy = rng.random() < .5
        while len(sc) < length and s in keys:
            ks = keys[s]
            key, (r, t) = ks[rng.randrange(len(ks))]
            if lazy and t == s and rng.random() < .7:      # mostly go somewhere else
                key, (r, t) = ks[rng.randrange(len(ks))]
            sc.append((key[0], key[1], r))
            used += rlen(r)
            s = t
        n += len(sc)
        scen.append(sc)
    return scen


def cover(inits, adj, maxlen=400):
    """Scenarios (op lists with expected results) covering every edge."""
    # self-loops are taken first (popped from the end)
    todo = {s: sorted(d.keys(), key=lambda k: d[k][1] == s) for s, d in adj.items()}
    remaining = sum(len(v) for v in todo.values())
    succ = {}
    for s, d in adj.items():
        x = {}
        for key, (r, t) in d.items():
            if t != s:
                x.setdefault(t, key)
        succ[s] = list(x.items())
    # BFS tree from the initial states, used to (re)start a path
    init_of, parent = {}, {}
    for s, a in inits:
        init_of.setdefault(s, a)
        parent[s] = None
    q = deque(parent)
    order = []
    while q:
        s = q.popleft()
        order.append(s)
        for t, key in succ.get(s, ()):
            if t not in parent:
                parent[t] = (s, key)
                q.append(t)

    def near(start, limit):
        seen = {start: None}
        q = deque([start])
        while q:
            s = q.popleft()
            if todo.get(s):
                path = []
                while seen[s] is not None:
                    ps, key = seen[s]
                    path.append((ps, key))
                    s = ps
                path.reverse()
                return path
            if len(seen) > limit:
                return None
            for t, key in succ.get(s, ()):
                if t not in seen:
                    seen[t] = (s, key)
                    q.append(t)
        return None

    scen = []
    for s, a in inits:      # every configuration at least constructed
        if s not in adj:
            scen.append([("new", a, ())])
    for goal in order:
        while todo.get(goal):
            path, s = [], goal
            while parent[s] is not None:
                path.append(parent[s])
                s = parent[s][0]
            path.reverse()
            cur = [("new", init_of[s], ())]
            for px, key in path:
                cur.append((key[0], key[1], adj[px][key][0]))
            s = goal
            while len(cur) < maxlen:
                if todo.get(s):
                    key = todo[s].pop()
                    r, t = adj[s][key]
                    cur.append((key[0], key[1], r))
                    s = t
                    continue
                path = near(s, 200)
                if path is None:
                    break
                for px, key in path:
                    r, t = adj[px][key]
                    cur.append((key[0], key[1], r))
                    s = t
            scen.append(cur)
    return scen


# -------------------------------------------------------------------------------------- parts
class Part:
    """One component: a specification module, a driver, an exploration and a history generator."""

    def __init__(self, name, spec, harness, gen=None, explore=True, asan=True, flags=(), extra_src=(),
                 configs="Configs", big="BigConfigs", opt="-O1", names=None, echo=False, steps=1, dup=False, twin=True):
        # dup: now and then the object is replaced by a copy of itself (the driver knows how)
        # echo: for validation the observed result is appended to the arguments, so that a specification
        # with very many allowed results can judge the observed one
        # steps: how many of the usual number of random steps are replayed
        self.echo, self.steps, self.dup = echo, steps, dup
        # twin: recorded scenarios run with a second object beside the first (drv.hh)
        self.env = {"VT_TWIN": "1"} if twin else None
        self.names = names or {}
        self.name, self.spec, self.harness, self.gen = name, spec, harness, gen
        self.explore, self.asan, self.flags, self.extra_src, self.opt = explore, asan, list(flags), extra_src, opt
        self.configs, self.big = configs, big

    def build(self, ctx):
        self.dir = os.path.join(ctx.dir, self.name)
        os.makedirs(self.dir, exist_ok=True)
        extra = [x.replace("$REPO", REPO) for x in self.extra_src]
        exe = os.path.join(self.dir, "driver")
        try:
            self.exe = compile_harness(self.harness, exe, self.flags, self.asan, self.opt, extra)
        except Uncompilable:
            # repeatable, and the compiler works: a use of the public API the property covers is rejected
            try:
                self.exe = compile_harness(self.harness, exe, self.flags, self.asan, self.opt, extra)
            except Uncompilable as e:
                m = re.search(r"[^\n]* error: [^\n]*", e.text)
                what = f"{self.name}: a use of the public API is rejected by the compiler: {m.group(0)[:300]}"
                raise Violation(what, self.save_replay(ctx, [], [], what))

    def save_replay(self, ctx, scenarios, events, what, env=0):
        n = len([x for x in os.listdir(ctx.dir) if x.startswith("replay-")])
        path = os.path.join(ctx.dir, f"replay-{self.name}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": ctx.prop, "part": self.name, "spec": self.spec, "what": what,
                       "scenarios": scenarios, "events": events, "env": self.env if env == 0 else env}, f, indent=1)
        return path

    def shown(self, evs):
        if not self.echo:
            return evs
        return [e if e["op"] == "new" else {"op": e["op"], "a": e["a"] + e["r"], "r": e["r"]} for e in evs]

    def judge(self, ctx, scenarios, tag="confirm", env=0):
        """Run scenarios on the driver and validate by TLC.  None if fine, else (what, events)."""
        evs, fail = run_driver(self.exe, scenarios, env=self.env if env == 0 else env)
        if fail and fail[0] < len(evs):
            return (f"{self.name}: {fail[1]}", evs)
        if fail:
            ops = [o for sc in scenarios for o in sc]
            op, a = ops[fail[0]]
            return (f"{self.name}: no result from {op}{tuple(a)}: {fail[1]}", evs)
        if len(evs) > 30000:  # the last scenarios (TLC: fewer than 65536 states in one behaviour)
            evs = evs[next(i for i in range(len(evs) - 30000, len(evs)) if evs[i]["op"] == "new"):]
        m, _ = validate_trace(os.path.join(self.dir, tag), self.spec, self.shown(evs), names=self.names)
        if m < len(evs):
            e = evs[m]
            return (f"{self.name}: event {m} {e['op']}({','.join(map(str, e['a'][:40]))}) -> {e['r'][:60]} is not allowed by spec/{self.spec}.tla", evs[:m + 1])
        return None

    def confirm(self, ctx, scenario, allscen, what0):
        """A candidate violation: report only if a re-run repeats it."""
        bad = self.judge(ctx, [scenario])
        if bad:
            small = self.shrink(ctx, scenario, bad)
            raise Violation(bad[0], self.save_replay(ctx, [small[0]], small[1], small[2]))
        for some, env in ((allscen[-2:], self.env), (allscen, None), (allscen, self.env)):
            bad = self.judge(ctx, some, env=env)
            if bad:
                raise Violation(bad[0], self.save_replay(ctx, some, bad[1], bad[0], env))
        raise CheckError(f"{self.name}: not repeatable: {what0}")

    def shrink(self, ctx, scenario, bad):
        """Cut the scenario after the failing event (cheap; no search)."""
        n = len(bad[1])
        cut = scenario[:max(n, 1) + 1]
        return cut, bad[1][-30:], bad[0]

    def run(self, ctx):
        rng = random.Random((ctx.seed * 1000003) ^ hash_str(self.name))
        graph = {}

        def exp():
            conf = self.big if ctx.thorough and self.big else self.configs
            graph["r"] = explore_graph(os.path.join(self.dir, "explore"), self.spec, conf, names=self.names)
        with ThreadPoolExecutor(2) as ex:
            fb = ex.submit(self.build, ctx)
            self.dir = os.path.join(ctx.dir, self.name)
            fe = ex.submit(exp) if self.explore else None
            scen_b = self.gen(rng, ctx.thorough) if self.gen else []
            fb.result()
            if fe:
                fe.result()
        # spec -> code: every transition of the explored graph
        if self.explore:
            r, inits, edges = graph["r"]
            ctx.add("states", r.distinct)
            ctx.add("transitions", len(edges))
            adj = adjacency(edges)
            if adj is None:
                scen_b = self.nondet_paths(rng, inits, edges, ctx.thorough) + scen_b
            else:
                cov = cover(inits, adj)
                k = (10 if ctx.thorough else 1) * self.steps
                cov += histories(inits, adj, random.Random(ctx.seed * 7919 + 11), int(15000 * k), int(60000 * k), int(4000000 * k))
                if self.dup:
                    cov = with_copies(random.Random(ctx.seed * 31 + 5), cov, ())
                self.replay(ctx, cov)
                ctx.add("replayed_paths", len(cov))
                ctx.add("traces_validated_against_impl", len(cov))
                ctx.add("replayed_steps", sum(len(c) for c in cov))
                ctx.sample({"part": self.name, "model_path": [[o, list(a), list(rr)] for o, a, rr in cov[len(cov) // 2][:12]]})
        # code -> spec
        if scen_b:
            if self.dup:
                scen_b = with_copies(random.Random(ctx.seed * 37 + 5), scen_b)
            # like next to like, so that twins are objects of the same type
            scen_b.sort(key=lambda sc: [int(x) for x in sc[0][1]] if sc and sc[0][0] == "new" else [])
            self.validate(ctx, scen_b)
        self.known(ctx)

    def replay(self, ctx, cov):
        scenarios = [[(o, a) for o, a, _ in sc] for sc in cov]
        evs, fail = run_driver(self.exe, scenarios)
        i = 0
        for k, sc in enumerate(cov):
            for o, a, r in sc:
                if i >= len(evs):
                    self.confirm(ctx, scenarios[k], scenarios[:k + 1], f"crash {fail}")
                got = tuple(evs[i]["r"])
                if o != "new" and (got not in r if isinstance(r, frozenset) else got != tuple(r)):
                    self.confirm(ctx, scenarios[k], scenarios[:k + 1], f"{o}{a}: got {evs[i]['r']}, specification says {list(r)}")
                i += 1
        if fail:
            self.confirm(ctx, scenarios[-1], scenarios, f"{fail}")

    def nondet_paths(self, rng, inits, edges, thorough):
        adj = {}
        for s, op, a, r, t in edges:
            adj.setdefault(s, []).append((op, a, t))
        out = []
        for _ in range(3000 if thorough else 300):
            s, a = rng.choice(inits)
            sc = [("new", a)]
            for _ in range(30):
                if s not in adj:
                    break
                op, a2, t = rng.choice(adj[s])
                sc.append((op, a2))
                s = t
            out.append(sc)
        return out

    def validate(self, ctx, scen):
        evs, fail = run_driver(self.exe, scen, env=self.env)
        bounds, n = [], 0
        for sc in scen:
            bounds.append((n, n + len(sc)))
            n += len(sc)
        if fail:
            for k, (lo, hi) in enumerate(bounds):
                if lo <= fail[0] < hi:
                    self.confirm(ctx, scen[k], scen[:k + 1], str(fail))
        # chunks at scenario boundaries
        limit = min(30000, max(4000, n // 6 + 1))  # TLC: fewer than 65536 states in one behaviour
        chunks, cur = [], []
        for k in range(len(scen)):
            cur.append(k)
            if bounds[k][1] - bounds[cur[0]][0] >= limit:
                chunks.append(cur)
                cur = []
        if cur:
            chunks.append(cur)

        def one(j):
            c = chunks[j]
            lo, hi = bounds[c[0]][0], bounds[c[-1]][1]
            m, r = validate_trace(os.path.join(self.dir, f"tv{j}"), self.spec, self.shown(evs[lo:hi]), names=self.names)
            return lo + m, hi, r
        with ThreadPoolExecutor(6) as ex:
            res = list(ex.map(one, range(len(chunks))))
        for m, hi, r in res:
            if m < hi:
                for k, (a, b) in enumerate(bounds):
                    if a <= m < b:
                        e = evs[m]
                        self.confirm(ctx, scen[k], scen[:k + 1], f"{e}")
            ctx.add("trace_states", r.distinct)
        ctx.add("traces_validated_against_impl", len(scen))
        ctx.add("trace_events", n)
        if not self.explore:
            ctx.add("states", sum(r.distinct for _, _, r in res))
            ctx.add("transitions", sum(m for m, _, _ in res))
        j = rng_pick(scen)
        ctx.sample({"part": self.name, "recorded": [[e["op"], e["a"][:20], e["r"][:20]] for e in evs[bounds[j][0]:bounds[j][0] + 8]]})

    def known(self, ctx):
        for kf in ctx.findings:
            if kf.get("part") != self.name:
                continue
            scen = [[(o, tuple(a)) for o, a in kf["script"]]]
            evs, fail = run_driver(self.exe, scen)
            bad = self.judge(ctx, scen, "known")
            if not bad:
                continue
            got = [e["r"] for e in bad[1]]
            if got == kf["observed"] or (kf.get("observed") == "no result" and fail):
                print(f"KNOWN-FINDING: property={ctx.prop} {kf['what']}", flush=True)
            else:
                raise Violation(bad[0], self.save_replay(ctx, scen, bad[1], bad[0]))


def with_copies(rng, scenarios, *result):
    """Insert copies of the object into a third of the scenarios."""
    out = []
    for sc in scenarios:
        if rng.random() < .34:
            p = rng.choice([.1, .3])
            new = [sc[0]]
            for x in sc[1:]:
                if rng.random() < p:
                    new.append(("dup", [rng.choice([0, 1, 1, 2, 3, 4])]) + result)
                new.append(x)
            sc = new
        out.append(sc)
    return out


def rng_pick(scen):
    return len(scen) // 2


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.dir = os.path.join(OUT, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.cov, self.samples, self.lock = {}, [], threading.Lock()
        self.notes = {}
        p = os.path.join(VERIF, "known_findings.json")
        allf = json.load(open(p))["findings"] if os.path.exists(p) else []
        self.findings = [f for f in allf if f["property"] == prop]

    def add(self, k, n):
        with self.lock:
            self.cov[k] = self.cov.get(k, 0) + n

    def note(self, k, v):
        with self.lock:
            self.notes[k] = v

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(s)


def write_evidence(ctx, level, t0, nviol, assumptions):
    cov = dict(ctx.cov)
    cov.update(ctx.notes)
    for k in ("states", "transitions", "traces_validated_against_impl"):
        cov.setdefault(k, 0)
    cov["samples"] = ctx.samples or ["none: the run ended before a sample was taken"]
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
