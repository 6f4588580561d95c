"""Concurrency parts: the real code under a controlled scheduler (harness/conc.hh); recorded histories are
decided by TLC (linearizability: spec/Conc.tla with a component; data races: spec/HbTrace.tla)."""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import vt


def tlc_trace(workdir, module, cfg, events, timeout=800):
    os.makedirs(workdir, exist_ok=True)
    path = os.path.join(workdir, "trace.ndjson")
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    r = vt.tlc(workdir, module, cfg, env={"VT_TRACE": path}, timeout=timeout)
    m = re.search(r'"MATCHED (-?\d+) OF (\d+)"', r.out)
    if r.rc != 0 or not m or int(m.group(2)) != len(events):
        raise vt.CheckError(f"TLC concurrent trace validation failed (rc {r.rc}), see {workdir}")
    return int(m.group(1)), r


def lin_validate(workdir, spec, weak, events):
    mod = f"---- MODULE CV ----\nEXTENDS {spec}, Conc\n====\n"
    cfg = ("SPECIFICATION CSpec\nCONSTANTS\n CStart <- Start\n CCall <- Call\n CStep <- Step\n CEnd <- End\n CInv <- Inv\n"
           f" Weak <- {'WK' if weak else 'SC'}\n"
           "INVARIANT CInvariant\nCONSTRAINT Reach\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n")
    return tlc_trace(workdir, mod, cfg, events)


def hb_validate(workdir, events):
    mod = "---- MODULE HV ----\nEXTENDS HbTrace\n====\n"
    cfg = "SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
    return tlc_trace(workdir, mod, cfg, events)


def fmt_prog(p):
    return " ; ".join(op + "".join(f" {x}" for x in a) for op, a in p)


class Job:
    def __init__(self, cfg, progs, mode="sc", preempt=2, stale=0, maxexec=20000, randoms=0, seed=1):
        self.cfg, self.progs, self.mode = list(cfg), progs, mode
        self.preempt, self.stale, self.maxexec, self.randoms, self.seed = preempt, stale, maxexec, randoms, seed

    def line(self, rep="-"):
        head = [self.mode, self.preempt, self.stale, self.maxexec, self.randoms, self.seed, rep] + self.cfg
        return " ".join(map(str, head)) + " | " + " | ".join(fmt_prog(p) for p in self.progs)

    def js(self):
        return {"cfg": self.cfg, "progs": self.progs, "mode": self.mode}


def parse(lines, job):
    """-> list of (choices, history events, memory events), (executions, distinct, complete), crash"""
    out, cur, stats, crash = [], None, None, None
    for ln in lines:
        if ln.startswith("H "):
            cur = (ln.split(" ", 2)[2], [], [])
        elif ln.startswith("CRASH"):
            crash = ln
        elif ln.startswith("J "):
            stats = [int(x) for x in ln.split()[1:]]
        elif ln == ".":
            out.append(cur)
            cur = None
        elif cur is not None:
            w = ln.split()
            if not w:
                continue
            if w[0] == "I":
                cur[1].append({"k": "N", "t": 3, "op": "new", "a": job.cfg + [int(x) for x in w[1:]], "r": []})
            elif w[0] == "C":
                cur[1].append({"k": "C", "t": int(w[1]), "op": w[2], "a": [int(x) for x in w[3:]], "r": []})
            elif w[0] == "T" and w[1] == "9":
                cur[1].append({"k": "F", "t": 3, "op": w[2], "a": [], "r": [int(x) for x in w[3:]]})
            elif w[0] == "T":
                cur[1].append({"k": "T", "t": int(w[1]), "op": w[2], "a": [], "r": [int(x) for x in w[3:]]})
            elif w[0] == "#":
                cur[2].append({"k": "N", "a": [int(x) for x in w[1:]]})
            else:
                cur[2].append({"k": w[0], "a": [int(x) for x in w[1:]]})
    return out, stats, crash


class ConcPart:
    def __init__(self, name, harness, lin, jobs, hb=False, linear=True, known_jobs=None):
        self.name, self.harness, self.lin, self.jobs, self.hb, self.linear = name, harness, lin, jobs, hb, linear
        self.known_jobs = known_jobs

    def build(self, ctx):
        self.dir = os.path.join(ctx.dir, self.name)
        os.makedirs(self.dir, exist_ok=True)
        self.exe = vt.compile_harness(self.harness, os.path.join(self.dir, "driver"), asan=False)

    def drive(self, job, rep="-", timeout=400):
        p = subprocess.run([self.exe], input=(job.line(rep) + "\n").encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
        if b"HARNESS-ERROR" in p.stderr:
            raise vt.CheckError(p.stderr.decode("latin1")[-500:])
        hs, stats, crash = parse(p.stdout.decode("latin1").split("\n"), job)
        if p.returncode != 0 and not crash:
            crash = f"CRASH exit {p.returncode} " + p.stderr.decode("latin1")[-200:]
        return hs, stats, crash

    def lin_events(self, job, h):
        return h[1]

    def judge_one(self, job, h, tag):
        if self.linear:
            ev = self.lin_events(job, h)
            m, _ = lin_validate(os.path.join(self.dir, tag), self.lin, job.mode == "weak", ev)
            if m < len(ev):
                e = ev[m]
                return f"{self.name}: history not allowed by spec/{self.lin}.tla at event {m}: thread {e['t']} {e['op']} -> {e['r']}"
        if self.hb and h[2]:
            m, _ = hb_validate(os.path.join(self.dir, tag), h[2])
            if m < len(h[2]):
                e = h[2][m]
                what = "read" if e["k"] == "R" else "write"
                return f"{self.name}: data race: thread {e['a'][0]}'s plain {what} of element {e['a'][1]} (event {m}) is not ordered by happens-before with an earlier access"
        return None

    def report(self, ctx, job, h, tag="confirm"):
        hs, _, crash = self.drive(job, h[0] or "-")
        if crash or not hs:
            what = f"{self.name}: no result: {crash}"
        else:
            what = self.judge_one(job, hs[0], tag)
            if what is None:
                raise vt.CheckError(f"{self.name}: violation not repeatable for {job.line(h[0])}")
            h = hs[0]
        n = len([x for x in os.listdir(ctx.dir) if x.startswith("replay-")])
        path = os.path.join(ctx.dir, f"replay-{self.name}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": ctx.prop, "part": self.name, "what": what, "job": job.js(), "choices": h[0],
                       "history": h[1], "memory_events": h[2]}, f, indent=1)
        raise vt.Violation(what, path)

    def replay_file(self, ctx, rep):
        j = rep["job"]
        job = Job(j["cfg"], [[(o, a) for o, a in p] for p in j["progs"]], j["mode"])
        hs, _, crash = self.drive(job, rep["choices"] or "-")
        if crash:
            return (crash,)
        w = self.judge_one(job, hs[0], "replay")
        return (w,) if w else None

    def run(self, ctx):
        self.build(ctx)
        rng = random.Random(ctx.seed * 7919 + vt.hash_str(self.name))
        jobs = self.jobs(rng, ctx.thorough)
        with ThreadPoolExecutor(7) as ex:
            res = list(ex.map(self.drive, jobs))
        runs = []
        for job, (hs, stats, crash) in zip(jobs, res):
            if crash:
                choices = crash.split(" ", 2)[2] if crash.count(" ") >= 2 and "exit" not in crash else ""
                n = len([x for x in os.listdir(ctx.dir) if x.startswith("replay-")])
                path = os.path.join(ctx.dir, f"replay-{self.name}-{n}.json")
                json.dump({"property": ctx.prop, "part": self.name, "what": crash, "job": job.js(), "choices": choices,
                           "history": [], "memory_events": []}, open(path, "w"))
                raise vt.Violation(f"{self.name}: the code crashes or hangs under {job.line()}: {crash[:40]}", path)
            ctx.add("schedules", stats[0])
            ctx.add("distinct_histories", stats[1])
            ctx.add("jobs_explored_to_bound", stats[2])
            for h in hs:
                runs.append((job, h))
        cap = 400000 if ctx.thorough else 24000
        if len(runs) > cap:
            ctx.add("histories_not_validated", len(runs) - cap)
            runs = rng.sample(runs, cap)
        tasks = []
        if self.linear:
            for weak in (False, True):
                sel, seen = [], set()
                for j, h in runs:
                    if (j.mode == "weak") != weak:
                        continue
                    key = (tuple(j.cfg), json.dumps(h[1]))
                    if key in seen:
                        continue
                    seen.add(key)
                    sel.append((j, h))
                tasks += self.chunk("lin", sel, weak)
        if self.hb:
            tasks += self.chunk("hb", [(j, h) for j, h in runs if h[2]], True)

        def one(k):
            kind, weak, sel = tasks[k]
            ev, bounds = [], []
            for j, h in sel:
                bounds.append(len(ev))
                ev += self.lin_events(j, h) if kind == "lin" else h[2]
            d = os.path.join(self.dir, f"{kind}{k}")
            m, r = lin_validate(d, self.lin, weak, ev) if kind == "lin" else hb_validate(d, ev)
            bad = None
            if m < len(ev):
                bad = sel[max(i for i, b in enumerate(bounds) if b <= m)]
            return kind, r, len(sel), len(ev), bad
        with ThreadPoolExecutor(6) as ex:
            done = list(ex.map(one, range(len(tasks))))
        for kind, r, n, ne, bad in done:
            if bad:
                self.report(ctx, *bad)
            ctx.add("states", r.distinct)
            ctx.add("transitions", r.generated)
            ctx.add("traces_validated_against_impl", n)
            ctx.add("histories_linearizability" if kind == "lin" else "traces_data_race", n)
            ctx.add("trace_events", ne)
        if runs:
            j, h = runs[len(runs) // 2]
            ctx.sample({"part": self.name, "job": j.line(), "history": [[e["k"], e["t"], e["op"], e["a"], e["r"]] for e in h[1][:14]]})
        self.known(ctx)

    def chunk(self, kind, sel, weak):
        out, cur, n = [], [], 0
        total = sum(len(h[1]) if kind == "lin" else len(h[2]) for _, h in sel)
        limit = min(20000, max(4000, total // 6 + 1))  # TLC: fewer than 65536 states in one behaviour
        for j, h in sel:
            cur.append((j, h))
            n += len(h[1]) if kind == "lin" else len(h[2])
            if n >= limit:
                out.append((kind, weak, cur))
                cur, n = [], 0
        if cur:
            out.append((kind, weak, cur))
        return out

    def known(self, ctx):
        """Known findings: a job, and the histories of it in which its calls overlap."""
        for kf in ctx.findings:
            if kf.get("part") != self.name:
                continue
            job = Job(kf["cfg"], [[(o, a) for o, a in p] for p in kf["progs"]], "sc", 3, 0, 20000)
            hs, stats, crash = self.drive(job)
            hit = False
            for h in hs:
                bad = self.judge_one(job, h, "known")
                if bad:
                    if [e["k"] for e in h[1][1:3]] == ["C", "C"]:  # both calls under way at once
                        hit = True
                    else:
                        self.report(ctx, job, h)
            if hit:
                print(f"KNOWN-FINDING: property={ctx.prop} {kf['what']}", flush=True)


class SpecPart:
    """Exhaustive model check of an implementation-shaped specification: no code is run; the module's own
    .cfg constants are given by the check.  `expect` = None (no error) or the name of a violated invariant
    (a sanity run showing that the specification can fail)."""

    def __init__(self, name, module, cfg, thorough_cfg=None, expect=None):
        self.name, self.module, self.cfg, self.tcfg, self.expect = name, module, cfg, thorough_cfg, expect

    def build(self, ctx):
        pass

    def run(self, ctx):
        d = os.path.join(ctx.dir, self.name)
        cfg = self.tcfg if ctx.thorough and self.tcfg else self.cfg
        mod = f"---- MODULE SP ----\nEXTENDS {self.module}\n====\n"
        r = vt.tlc(d, mod, cfg, workers=4 if ctx.thorough else 2, heap="6g" if ctx.thorough else None)
        if self.expect is None:
            if r.rc != 0 or "No error has been found" not in r.out:
                raise vt.CheckError(f"specification {self.module} fails its own properties, see {d}/SP.log")
        elif f"{self.expect} is violated" not in r.out:
            raise vt.CheckError(f"specification {self.module}: expected {self.expect} to be violated, see {d}/SP.log")
        ctx.add("states", r.distinct)
        ctx.add("transitions", r.generated)
        ctx.add("spec_states_" + self.name, r.distinct)
