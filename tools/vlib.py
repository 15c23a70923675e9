"""Orchestration shared by all checks: build drivers from /repo's working tree, run TLC to generate schedules and to
validate recorded traces, report violations, write evidence."""
import atexit
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = "/usr/bin/g++"
VARIANTS = {   # as the repository's own builds: compiler, flags, runner
    "plain": (CXX, [], []),
    "x86": (CXX, ["-Dx86_INTRINSICS", "-maes", "-msse4.1"], []),
    "arm": ("/usr/bin/aarch64-linux-gnu-g++", ["-DARM_INTRINSICS", "-march=armv8-a+crypto"], ["/usr/bin/qemu-aarch64"]),
    "rounds6": (CXX, ["-DROUND_REDUCED"], []),
    "rounds8": (CXX, ["-DEIGHT_ROUNDS"], []),
    "rounds12": (CXX, ["-DTWELVE_ROUNDS"], []),
}
WORKERS = 8
# instrumented builds record an illegal access in the trace and end
ENV = dict(os.environ, ASAN_OPTIONS="exitcode=0:detect_leaks=0:abort_on_error=0:handle_sigill=0:detect_stack_use_after_return=1")


class ToolError(Exception):
    """The check itself failed (neither held nor violated)."""


class Rejected(Exception):
    pass


def h(b):
    return bytes(b).hex()


class Run:
    """A driver execution to be validated."""

    def __init__(self, exe, lines, label, module, cfg, poison=None, align=None, env=None, probe=None):
        # unless given: contents of memory and alignment of data vary from run to run, the same for the same run
        v = zlib.crc32(label.encode())
        poison = (0xA5, 0, 0xFF, 0x5A, 1, 0x80)[v % 6] if poison is None else poison
        align = (v >> 8 if v & 0x30 else 0) if align is None else align
        self.exe, self.lines, self.label, self.module, self.cfg = exe, lines, label, module, cfg
        self.poison, self.align, self.env = poison, align, env or {}
        self.trace, self.timeout = None, 300
        self.big = sum(int(n) for l in lines if "Long " in l for n in re.findall(r"\bn=(\d+)", l))
        self.probe = probe          # lines (parsed events) -> candidate (index, field) pairs that must matter


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        atexit.register(shutil.rmtree, self.work, True)
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.violations, self.known_hit = [], [], [], []
        self.action_counts = {}
        self.designs = []
        self.n = 0
        self.known_packets = 0
        self.spec = os.path.join(self.work, "spec")
        self.classes = os.path.join(self.work, "classes")
        shutil.copytree(SPEC, self.spec)
        self._prepare()

    # ---------------------------------------------------------------- set-up
    def _prepare(self):
        os.makedirs(self.classes)
        r = subprocess.run(["javac", "-cp", JARS, "-d", self.classes] +
                           [os.path.join(self.spec, f) for f in os.listdir(self.spec) if f.endswith(".java")],
                           capture_output=True, text=True)
        if r.returncode:
            # without the class TLC evaluates the definitions themselves, only slower
            self.note("javac failed, running without overrides: " + r.stderr[-300:])
        self.fast = r.returncode == 0
        self.overridden = sorted(f[:-5] for f in os.listdir(self.spec) if f.endswith(".java") and os.path.exists(os.path.join(self.spec, f[:-5] + ".tla")))
        # the same texts under names that no class overrides
        for m in ("Words", "BigNat"):
            src = open(os.path.join(self.spec, m + ".tla")).read()
            with open(os.path.join(self.spec, m + "Pure.tla"), "w") as f:
                f.write(src.replace("MODULE %s -" % m, "MODULE %sPure -" % m))

    def note(self, s):
        self.notes.append(s)

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.work, "%04d-%s" % (self.n, name))

    # ---------------------------------------------------------------- building
    def sources(self, mdir, skip=()):
        """the .cpp files of a module directory that have no main function"""
        d = os.path.join(REPO, mdir)
        res = []
        for f in sorted(os.listdir(d)):
            if f.endswith(".cpp") and f not in skip:
                p = os.path.join(d, f)
                if not re.search(r"^\s*(int|auto)\s+main\s*\(", open(p, errors="replace").read(), re.M):
                    res.append(p)
        return res

    def build(self, driver, mdirs, variant="plain", flags=(), libs=(), skip=(), extra=(), cxx=None):
        """compile /verif/harness/<driver>.cpp with the sources of the module directories"""
        if isinstance(mdirs, str):
            mdirs = [mdirs]
        own, vflags, runner = VARIANTS[variant]
        cxx = cxx or own
        exe = self.path(driver + "-" + variant)
        inc, src = ["-I" + HARNESS], []
        for m in mdirs:
            inc.append("-I" + os.path.join(REPO, m))
            src += self.sources(m, skip)
        src += [os.path.join(REPO, e) for e in extra]
        objs = []
        procs = []
        for i, s in enumerate([os.path.join(HARNESS, driver + ".cpp")] + src):
            o = exe + ".%d.o" % i
            objs.append(o)
            procs.append((s, subprocess.Popen([cxx, "-g", "-w"] + vflags + list(flags) + inc + ["-c", s, "-o", o],
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in procs:
            out = p.communicate()[0]
            if p.returncode:
                raise ToolError("compiling %s (%s):\n%s" % (s, variant, out[-3000:]))
        r = subprocess.run([cxx] + (["-static"] if runner else []) + [f for f in flags if f.startswith("-fsan")] + objs + ["-o", exe, "-pthread"] + list(libs), capture_output=True, text=True)
        if r.returncode:
            raise ToolError("linking %s: %s" % (driver, r.stderr[-3000:]))
        for o in objs:
            os.unlink(o)
        return runner + [exe]

    def build_all(self, jobs):
        """jobs: {key: (driver, mdirs, variant, kwargs)} -> {key: exe}"""
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            fut = {k: ex.submit(self.build, j[0], j[1], j[2], **(j[3] if len(j) > 3 else {})) for k, j in jobs.items()}
            return {k: f.result() for k, f in fut.items()}

    # ---------------------------------------------------------------- executing the real code
    def execute(self, run):
        sched = self.path("sched")
        with open(sched, "w") as f:
            f.write("\n".join(run.lines) + "\n")
        run.trace = self.path("trace.ndjson")
        try:
            r = subprocess.run(run.exe + [sched, run.trace, str(run.poison), str(run.align)], capture_output=True,
                               timeout=run.timeout, cwd=self.work, env=dict(ENV, **run.env))
            rc, err = r.returncode, r.stderr[-500:].decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, err = "timeout", ""
        os.unlink(sched)
        if rc == 3:
            raise ToolError("driver %s: %s" % (run.label, err))
        return rc

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, args=(), timeout=800, heap="3g", classes=None):
        meta = self.path("meta")
        e = dict(os.environ)
        e.update(env or {})
        # precompiled C1 code is enough for short runs; long ones profit from C2
        cmd = ["java", "-XX:+UseSerialGC", "-Xss64m", "-Xmx" + heap, "-XX:TieredStopAtLevel=4", "-cp", (classes or self.classes) + ":" + JARS,
               "tlc2.TLC", "-nowarning", "-workers", "1", "-metadir", meta, "-config", cfg] + list(args) + [module]
        try:
            r = subprocess.run(cmd, cwd=self.spec, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s %s" % (module, cfg))
        finally:
            shutil.rmtree(meta, True)
        out = r.stdout
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        return out, gen, dist

    def design(self, module, cfg=None, args=(), min_states=1, timeout=800):
        """exhaustive check of a small-constant model; a failure is an error of the model, not of the code"""
        out, gen, dist = self.tlc(module, cfg or module + ".cfg", args=args, timeout=timeout)
        if "No error has been found" not in out:
            raise ToolError("model %s (%s) does not hold:\n%s" % (module, cfg, out[-3000:]))
        if dist < min_states:
            raise ToolError("model %s: only %d states" % (module, dist))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.designs.append({"model": module, "config": cfg or module + ".cfg", "distinct_states": dist, "states_generated": gen})
        return out

    def sensitive(self, module, constant, value, inv):
        """the same model with a defect put in: the invariant must fail"""
        text = open(os.path.join(self.spec, module + ".cfg")).read()
        name = write_cfg(self, "%s_%s.cfg" % (module, value), re.sub(r'%s = "\w*"' % constant, '%s = "%s"' % (constant, value), text))
        out, gen, dist = self.tlc(module, name, args=("-noGenerateSpecTE",))
        if "Invariant %s is violated" % inv not in out:
            raise ToolError("model %s with %s = %s: %s is not violated\n%s" % (module, constant, value, inv, out[-1500:]))
        with self.lock:
            self.designs.append({"model": module, "with": value, "violates": inv})

    def validate_trace(self, module, cfg, trace, env=None, timeout=800):
        """-> (accepted, number of lines consumed)"""
        e = dict(env or {})
        e["TRACE"] = trace
        out, gen, dist = self.tlc(module, cfg, e, timeout=timeout)
        if "No error has been found" in out:
            m = re.search(r'"KNOWN (\d+)"', out)
            if m:
                with self.lock:
                    self.known_packets += int(m.group(1))
            return True, dist - 1, gen, dist
        if re.search(r"Postcondition \w+ .*is false", out):
            m = re.search(r"depth of the complete state graph search is (\d+)", out)
            return False, (int(m.group(1)) - 1 if m else -1), gen, dist
        raise ToolError("TLC on %s %s:\n%s" % (module, trace, out[out.find("Error:"):][:2500]))

    # ---------------------------------------------------------------- one conformance run
    def conform(self, run):
        """execute a schedule on the real code and validate the trace; returns None or a violation record"""
        for attempt in (1, 2):
            rc = self.execute(run)
            bad = None
            if rc != 0:
                bad = {"kind": "driver ended with %s" % rc, "at": None}
            else:
                nlines = sum(1 for _ in open(run.trace))
                ok, n, gen, dist = self.validate_trace(run.module, run.cfg, run.trace, run.env, timeout=max(800, run.timeout))
                if ok and n != nlines:
                    raise ToolError("accepted %d of %d lines (%s)" % (n, nlines, run.label))
                if ok:
                    with self.lock:
                        self.states += dist
                        self.transitions += gen - 1
                        self.traces += 1
                        self.events += nlines
                        for line in open(run.trace):
                            k = json.loads(line)["e"] if len(line) < 100000 else "long"
                            self.action_counts[k] = self.action_counts.get(k, 0) + 1
                    return None
                bad = {"kind": "rejected by " + run.module, "at": n + 1}
        # the rejection was repeated
        self.violation(bad, run)
        return bad

    def violation(self, bad, run=None, extra=None):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        with self.lock:
            k = len(self.violations) + 1
            p = os.path.join(d, "%s-%d.json" % (self.pid, k))
            rec = {"property": self.pid, "kind": bad.get("kind"), "trace_line": bad.get("at"), "seed": self.seed}
            if extra:
                rec.update(extra)
            if run is not None:
                rec.update({"label": run.label, "spec": run.module, "config": run.cfg, "poison": run.poison, "align": run.align,
                            "schedule": run.lines})
                if bad.get("at") and run.trace and os.path.exists(run.trace):
                    for i, line in enumerate(open(run.trace), 1):
                        if i == bad["at"]:
                            rec["rejected_event"] = line[:20000]
            with open(p, "w") as f:
                json.dump(rec, f, indent=1)
            self.violations.append(p)
        if k <= 5:
            print("  %s: %s at trace line %s (%s)" % (self.pid, bad.get("kind"), bad.get("at"), run.label if run else ""), flush=True)

    def conform_all(self, runs, probe=True):
        runs = sorted(runs, key=lambda r: -r.big)        # the long ones first
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            futs = [ex.submit(self.conform, r) for r in runs]
            res = [f.result() for f in futs]
        good = [r for r, x in zip(runs, res) if x is None]
        for r in good[:1] + good[-1:]:
            if len(self.samples) < 4 and r.trace:
                ls = open(r.trace).read().splitlines()
                i = self.rng.randrange(len(ls))
                self.samples.append({"run": r.label, "line": i + 1, "event": ls[i][:600]})
        if probe and good:
            self.probe(self.rng.choice([r for r in good if r.big < 1 << 22] or good))
        for r in runs:
            if r.trace and os.path.exists(r.trace) and not self.violations:
                os.unlink(r.trace)
        return res

    def probe(self, run, fields=("out", "tag", "res", "digest", "ok")):
        """demonstrate the binding: one changed output byte must make the same trace unacceptable"""
        lines = open(run.trace).read().splitlines()
        cand = []
        if run.probe:
            cand = run.probe([json.loads(s) for s in lines])
        for i, s in enumerate(lines if not run.probe else ()):
            if len(s) < 20000:
                ev = json.loads(s)
                for f in fields:
                    if isinstance(ev.get(f), list) and ev[f]:
                        cand.append((i, f))
        if not cand:
            return
        i, f = self.rng.choice(cand)
        ev = json.loads(lines[i])
        j = self.rng.randrange(len(ev[f]))
        ev[f][j] ^= 1 << self.rng.randrange(8)
        lines[i] = json.dumps(ev)
        p = self.path("probe.ndjson")
        with open(p, "w") as fo:
            fo.write("\n".join(lines[:i + 1]) + "\n")
        ok, n, _, _ = self.validate_trace(run.module, run.cfg, p, run.env)
        if ok:
            raise ToolError("a corrupted trace was accepted (%s line %d %s)" % (run.label, i + 1, f))
        if n != i:
            raise ToolError("a corrupted trace was rejected at line %d, not %d (%s)" % (n + 1, i + 1, run.label))
        self.note("binding probe: changing one byte of '%s' in line %d of %s is rejected at that line" % (f, i + 1, run.label))

    # ---------------------------------------------------------------- schedules from TLC
    def edges(self, module, cfg=None, env=None):
        """explore a schedule machine; its ACTION_CONSTRAINT prints one JSON line per transition: EDGE [from, op, to]"""
        out, gen, dist = self.tlc(module, cfg or module + ".cfg", env)
        if "No error has been found" not in out:
            raise ToolError("schedule machine %s:\n%s" % (module, out[-3000:]))
        es = []
        for line in out.splitlines():
            if line.startswith('"EDGE '):
                es.append(json.loads(json.loads(line)[5:]))
        if not es:
            raise ToolError("schedule machine %s printed no transitions:\n%s" % (module, out[-2000:]))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.designs.append({"schedule_machine": module, "config": cfg or module + ".cfg", "distinct_states": dist, "transitions": len(es)})
        return es

    def tours(self, es, init, maxlen=400):
        """walks from the initial state that together take every transition"""
        key = lambda s: json.dumps(s, sort_keys=True)
        succ = {}
        for f, op, t in es:
            succ.setdefault(key(f), []).append([op, key(t), False])
        for v in succ.values():
            self.rng.shuffle(v)
        todo = sum(len(v) for v in succ.values())
        start = key(init)
        walks = []
        while todo:
            cur, walk = start, []
            while len(walk) < maxlen:
                nxt = next((e for e in succ.get(cur, ()) if not e[2]), None)
                if nxt is None:
                    # shortest path to a state with an untaken transition
                    prev, queue, goal = {cur: None}, [cur], None
                    while queue and goal is None:
                        q = queue.pop(0)
                        for e in succ.get(q, ()):
                            if e[1] not in prev:
                                prev[e[1]] = (q, e)
                                if any(not x[2] for x in succ.get(e[1], ())):
                                    goal = e[1]
                                    break
                                queue.append(e[1])
                    if goal is None:
                        break
                    path = []
                    while goal != cur:
                        q, e = prev[goal]
                        path.append(e)
                        goal = q
                    for e in reversed(path):
                        walk.append(e[0])
                        cur = e[1]
                        todo -= not e[2]
                        e[2] = True
                    continue
                nxt[2] = True
                todo -= 1
                walk.append(nxt[0])
                cur = nxt[1]
            if not walk:
                raise ToolError("unreachable transitions in schedule machine")
            walks.append(walk)
        return walks

    @staticmethod
    def findings():
        return json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]

    # ---------------------------------------------------------------- finish
    def finish(self, level_assumptions=()):
        for k in self.findings():
            if k["property"] == self.pid and k["id"] in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "events_validated": self.events, "events_by_action": self.action_counts,
                           "models": self.designs, "samples": self.samples or ["none"], "notes": self.notes},
              "assumptions": list(level_assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0]), flush=True)
            return 1
        print("OK %s tier=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
            self.pid, self.tier, self.states, self.transitions, self.traces, self.events, time.time() - self.t0), flush=True)
        return 0


def write_cfg(ctx, name, text):
    with open(os.path.join(ctx.spec, name), "w") as f:
        f.write(text)
    return name


def sched_stream(ctx, name, lens, nkeys=2, nivs=2, iv_needed=True, key_clears_iv=False, maxlen=400):
    """walks over the SchedStream machine"""
    cfg = "S_%s.cfg" % name
    with open(os.path.join(ctx.spec, cfg), "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANTS NKeys = %d\n NIvs = %d\n Lens = {%s}\n IvNeeded = %s\n KeyClearsIv = %s\n"
                "VIEW View\nINVARIANT TypeOK\nACTION_CONSTRAINT PrintEdge\nCHECK_DEADLOCK FALSE\n" % (
                    nkeys, nivs, ",".join(map(str, lens)), str(iv_needed).upper(), str(key_clears_iv).upper()))
    es = ctx.edges("SchedStream", cfg)
    return ctx.tours(es, [0, 0, 0], maxlen)


def interleave(rng, seqs):
    """random merge of several call sequences, each keeping its order"""
    seqs = [list(s) for s in seqs if s]
    out = []
    while seqs:
        i = rng.randrange(len(seqs))
        out.append(seqs[i].pop(0))
        if not seqs[i]:
            seqs.pop(i)
    return out
