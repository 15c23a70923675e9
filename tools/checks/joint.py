"""Several executions read as one behaviour (spec/JointTrace.tla)."""
import concurrent.futures as cf
import json
import os
import subprocess
from vlib import Run, ToolError


class Part:
    """one execution of a driver"""

    def __init__(self, exe, lines, poison=0xA5, align=0, threads=None, what="", sizes=None, env=None):
        self.exe, self.lines, self.poison, self.align, self.threads, self.what, self.sizes = \
            exe, lines, poison, align, threads, what, sizes
        self.env = env


SKIPPED = '{"e":"Skipped"}'


def distinct(lines, sizes):
    """leave out epochs that are recorded in the same words before"""
    if len(lines) != sum(sizes):
        return "".join(x + "\n" for x in lines)        # ended early
    seen, out, at = set(), [], 0
    for n in sizes:
        t = "\n".join(x for x in lines[at:at + n] if x != SKIPPED)
        at += n
        if t and t not in seen:
            seen.add(t)
            out.append(t + "\n")
    return "".join(out)


def run_threads(ctx, part):
    base = ctx.path("sched")
    for i, ls in enumerate(part.threads):
        with open("%s.%d" % (base, i), "w") as f:
            f.write("\n".join(ls) + "\n")
    out = ctx.path("threads")
    try:
        r = subprocess.run(part.exe + [base, out, str(part.poison), str(part.align), str(len(part.threads))], capture_output=True, timeout=300, cwd=ctx.work,
                           env=dict(os.environ, DRV_SKIPPED="1"))
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    if rc == 3:
        raise ToolError("driver: " + r.stderr[-300:].decode(errors="replace"))
    data = []
    for i in range(len(part.threads)):
        os.unlink("%s.%d" % (base, i))
        p = "%s.%d" % (out, i)
        if os.path.exists(p):
            data.append(open(p).read() if not part.sizes else distinct(open(p).read().splitlines(), part.sizes[i]))
            os.unlink(p)
    return rc, "".join(data)


def record(ctx, parts):
    """-> (bad or None, trace file, line number at which each part begins)"""
    path = ctx.path("joint.ndjson")
    starts, n = [], 0

    def one(p):
        if p.threads:
            return run_threads(ctx, p)
        run = Run(p.exe, p.lines, p.what, "JointTrace", "", poison=p.poison, align=p.align, env=p.env)
        rc = ctx.execute(run)
        text = open(run.trace).read() if os.path.exists(run.trace) else ""
        if os.path.exists(run.trace):
            os.unlink(run.trace)
        return rc, text
    if any("Long " in x for p in parts for x in p.lines or ()):
        with cf.ThreadPoolExecutor(4) as ex:
            done = list(ex.map(one, parts))
    else:
        done = map(one, parts)
    with open(path, "w") as f:
        for p, (rc, text) in zip(parts, done):
            starts.append(n + 1)
            f.write('{"e":"Begin"}\n')
            n += 1
            if rc != 0:
                return {"kind": "driver ended with %s (%s)" % (rc, p.what), "at": None}, path, starts
            f.write(text)
            n += text.count("\n")
    return None, path, starts


def joint(ctx, label, cfg, parts):
    """None, or a violation record"""
    threaded = any(p.threads for p in parts)
    for attempt in (1, 2):
        bad, path, starts = record(ctx, parts)
        if bad is None:
            n = sum(1 for _ in open(path))
            ok, k, gen, dist = ctx.validate_trace("JointTrace", cfg, path)
            if ok:
                with ctx.lock:
                    ctx.states += dist
                    ctx.transitions += gen - 1
                    ctx.traces += len(parts)
                    ctx.events += n
                    for line in open(path):
                        e = line[6:line.index('"', 6)]
                        ctx.action_counts[e] = ctx.action_counts.get(e, 0) + 1
                return path, starts
            bad = {"kind": "rejected by JointTrace (%s)" % cfg, "at": k + 1}
        if threaded:
            break           # another execution may take another schedule
    extra = {"label": label, "config": cfg,
             "parts": [{"what": p.what, "exe": os.path.basename(p.exe[-1]), "poison": p.poison, "align": p.align, "begins": s,
                        "schedule": p.lines, "threads": p.threads and [t[:400] for t in p.threads]} for p, s in zip(parts, starts)]}
    if bad["at"]:
        for i, line in enumerate(open(path), 1):
            if i == bad["at"]:
                extra["rejected_event"] = line[:20000]
        for p, s in zip(parts, starts):
            if s <= bad["at"]:
                extra["part"] = p.what
    ctx.violation(bad, None, extra)
    return None


def joint_all(ctx, jobs, probe_fields=("out", "tag", "res", "m", "c")):
    """jobs: (label, cfg, parts); afterwards one of the accepted traces is corrupted in its last execution"""
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: joint(ctx, *j), jobs))
    good = [(j, r) for j, r in zip(jobs, res) if r]
    ctx.rng.shuffle(good)
    for (label, cfg, parts), (path, starts) in good:
        lines = open(path).read().splitlines()
        cand = []
        for i in range(starts[-1], len(lines)):
            if len(lines[i]) > 100000:
                continue
            e = json.loads(lines[i])
            for f in probe_fields:
                if isinstance(e.get(f), list) and e[f] and not (f == "tag" and e["e"] not in ("Tag", "Encrypt")) and \
                        not (f == "m" and e["e"] == "Encrypt") and not (e["e"] == "Product" and f != "c"):
                    cand.append((i, f))
        if not cand:
            continue
        i, f = ctx.rng.choice(cand)
        e = json.loads(lines[i])
        j = ctx.rng.randrange(len(e[f]))
        e[f][j] ^= 1 << ctx.rng.randrange(8)
        before = lines[i]
        lines[i] = json.dumps(e)
        p = ctx.path("probe.ndjson")
        with open(p, "w") as fo:
            fo.write("\n".join(lines[:i + 1]) + "\n")
        ok, n, _, _ = ctx.validate_trace("JointTrace", cfg, p)
        os.unlink(p)
        if ok or n != i:
            raise ToolError("a corrupted joint trace was %s (%s line %d %s)" % ("accepted" if ok else "rejected at %d" % (n + 1), label, i + 1, f))
        ctx.note("binding probe: changing one byte of '%s' in line %d of %s is rejected at that line" % (f, i + 1, label))
        ctx.samples.append({"run": label, "line": i + 1, "event": before[:600]})
        break
    for r in res:
        if r and os.path.exists(r[0]):
            os.unlink(r[0])
