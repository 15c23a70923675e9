import concurrent.futures as cf
import json
import os
import vlib
from .jl import HC, JL, build_lhe, hx, message
from .joint import Part, run_threads
from vlib import Run, ToolError, h

# operation: labelled operands, results, operands a result may replace
OVER = {"Enc": (0,), "LAdd": (0, 1), "LSub": (0, 1), "LCMul": (0,), "AAdd": (0, 1), "ASub": (0, 1), "ACMul": (0,)}
CTS = {"LAdd": 2, "LSub": 2, "LCMul": 1, "Mult": 2, "Mult3": 3, "LDec": 1}
CTOUT = ("LEnc", "LAdd", "LSub", "LCMul")


class Call:
    def __init__(self, op, ins, outs, k=0, x=0, more=""):
        self.op, self.ins, self.outs, self.k, self.x, self.more = op, ins, outs, k, x, more

    def needs(self):
        return {i for i in self.ins if i[0] != "#"}

    def line(self, rng, places, over):
        """the same operation in places drawn from a few, or in new ones"""
        c = CTS.get(self.op, 0)
        used, cused, at = {}, {}, []
        for i, v in enumerate(self.ins):
            u, free = (cused, places.c) if i < c else (used, places.n)
            # equal operands may be one object
            same = [p for p, w in u.items() if w == v]
            p = rng.choice(same) if same and rng.random() < 0.5 else free(rng, u)
            u[p] = v
            at.append(p)
        to = []
        for i in range(len(self.outs)):
            ct = self.op in CTOUT and i == 0
            u, free = (cused, places.c) if ct else (used, places.n)
            if over and i == 0 and self.op in OVER and rng.random() < 0.7:
                to.append(at[rng.choice(OVER[self.op])])
            else:
                p = free(rng, u)
                u[p] = None
                to.append(p)
        return "%s in=%s at=%s out=%s to=%s k=%d x=%d g=%d h=%d%s" % (
            self.op, ",".join(self.ins), ",".join(map(str, at)), ",".join(self.outs), ",".join(map(str, to)), self.k, self.x,
            places.n(rng, {}) % 3, places.n(rng, {}) % 3, self.more)


class Few:
    def __init__(self, n=14, c=7):
        self.nn, self.cc = n, c

    def n(self, rng, used):
        return rng.choice([p for p in range(self.nn) if p not in used])

    def c(self, rng, used):
        return rng.choice([p for p in range(self.cc) if p not in used])


class New:
    def __init__(self):
        self.at = 1000

    def n(self, rng, used):
        self.at += 1
        return self.at

    c = n


def programme(rng, keys, mu, n):
    """calls on several keys, every one after those it takes values from"""
    calls = []
    seed = lambda: rng.randrange(1 << 20)
    for i, (k, size) in enumerate(keys):
        lab = k % 32 == 0
        key = ["N%d" % i, "y%d" % i, "p%d" % i]
        N, y, p = key
        calls.append(Call("LKeyGen" if lab and rng.random() < 0.5 else "KeyGen", [], key, k, size))
        cs, ls, al = [], [], []
        name = iter("v%d_%d" % (i, j) for j in range(100000))
        msg = lambda: "#" + hx(message(rng, k))

        def enc():
            o = next(name)
            calls.append(Call("Enc", [msg(), y, N], [o], k, seed()))
            cs.append(o)
        for _ in range(3):
            enc()
        if not lab:
            for _ in range(n):
                if rng.random() < 0.5:
                    enc()
                else:
                    calls.append(Call("Dec", [rng.choice(cs), p, y], [next(name)], k))
            continue
        if mu:
            calls.append(Call("UserKey", [N, y], [next(name), next(name)], k, seed()))
        fixed = " key=%s iv=%s" % (h(rng.randbytes(16)), h(rng.randbytes(16)))
        for j in range(4):
            o, b = next(name), next(name)
            more = fixed if j else " key=%s iv=%s" % (h(rng.randbytes(16)), h(rng.randbytes(16)))
            calls.append(Call("LEnc", [msg(), y, N, "#" + hx(rng.choice([j, 1 << 16, rng.randrange(1 << k)]))], [o, b], k, seed(), more))
            ls.append(o)
        a, b = rng.sample(ls, 2)
        for _ in range(2):
            al.append(next(name))
            calls.append(Call("Mult", [a, b, y, N], [al[-1]], k, seed()))
        for _ in range(n):
            o = next(name)
            op = rng.choice(["LAdd", "LSub", "LCMul", "AAdd", "ASub", "ACMul", "Mult", "Mult3", "LDec", "ADec", "Dec", "Enc"])
            if op == "Enc":
                enc()
            elif op == "Dec":
                calls.append(Call(op, [rng.choice(cs), p, y], [o], k))
            elif op in ("LAdd", "LSub"):
                calls.append(Call(op, [rng.choice(ls), rng.choice(ls), N], [o], k))
                ls.append(o)
            elif op == "LCMul":
                calls.append(Call(op, [rng.choice(ls), msg(), N], [o], k))
                ls.append(o)
            elif op in ("AAdd", "ASub"):
                calls.append(Call(op, [rng.choice(al), rng.choice(al), N], [o], k))
                al.append(o)
            elif op == "ACMul":
                calls.append(Call(op, [rng.choice(al), msg(), N], [o], k))
                al.append(o)
            elif op == "Mult":
                calls.append(Call(op, [rng.choice(ls), rng.choice(ls), y, N], [o], k, seed()))
                al.append(o)
            elif op == "Mult3":
                calls.append(Call(op, [rng.choice(ls) for _ in range(3)] + [rng.choice(cs) for _ in range(3)] + [y, N], [o], k, seed()))
                al.append(o)
            elif op == "LDec":
                calls.append(Call(op, [rng.choice(ls), p, y], [o], k))
            elif op == "ADec":
                calls.append(Call(op, [rng.choice(al), rng.choice([msg(), rng.choice(cs)]), p, y], [o], k))
    return calls


def order(rng, calls, repeat):
    """another order in which every value is there when it is needed, with repetitions"""
    todo, done, have = list(calls), [], set()
    while todo:
        ready = [c for c in todo[:40] if all(i in have or (i + "a") in have for i in c.needs())]
        c = rng.choice(ready)
        todo.remove(c)
        done.append(c)
        for i, o in enumerate(c.outs):
            have.update([o + "a", o + "c"] if c.op in CTOUT and i == 0 else [o])
        if rng.random() < repeat:
            done.append(rng.choice(done))
    return done


def build(ctx):
    exes = {"LabeledHE": ctx.build("drv_num", ["AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE", JL, HC], libs=("-lgmp",))}
    build_lhe_dirs(ctx)
    d = os.path.join(ctx.work, "mu")
    try:
        exes["muLabeledHE"] = ctx.build("drv_num", ["AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE", JL, HC],
                                        flags=("-DMU", "-I" + os.path.join(d, "x")), libs=("-lgmp",))
    except ToolError as e:
        ctx.note("muLabeledHE, which the repository's own build leaves out, was not checked: " + str(e)[-200:])
    return exes


def build_lhe_dirs(ctx):
    d = os.path.join(ctx.work, "mu")
    os.makedirs(os.path.join(d, "x"), exist_ok=True)
    for name, target in (("HC-128", HC), ("joye_libert", JL)):
        if not os.path.exists(os.path.join(d, name)):
            os.symlink(os.path.join(vlib.REPO, target), os.path.join(d, name))
    return d


def joint(ctx, label, parts):
    path = ctx.path("values.ndjson")
    n, starts, bad = 0, [], None
    with open(path, "w") as f:
        for p in parts:
            starts.append(n + 1)
            if p.threads:
                rc, text = run_threads(ctx, p)
            else:
                run = Run(p.exe, p.lines, p.what, "ValueTrace", "", poison=p.poison)
                rc = ctx.execute(run)
                text = open(run.trace).read() if os.path.exists(run.trace) else ""
                if os.path.exists(run.trace):
                    os.unlink(run.trace)
            text = "".join(t for t in text.splitlines(True) if "Skipped" not in t)
            f.write('{"e":"Begin"}\n' + text)
            n += 1 + text.count("\n")
            if rc != 0:
                bad = {"kind": "driver ended with %s (%s)" % (rc, p.what), "at": None}
                break
    if bad is None:
        ok, k, gen, dist = ctx.validate_trace("ValueTrace", "ValueTrace.cfg", path)
        if ok:
            with ctx.lock:
                ctx.states += dist
                ctx.transitions += gen - 1
                ctx.traces += len(parts)
                ctx.events += n
                for line in open(path):
                    e = line[6:line.index('"', 6)]
                    ctx.action_counts[e] = ctx.action_counts.get(e, 0) + 1
            return path, starts
        bad = {"kind": "rejected by ValueTrace", "at": k + 1}
    extra = {"label": label, "parts": [{"what": p.what, "begins": s, "poison": p.poison, "schedule": p.lines,
                                        "threads": p.threads and [t[:400] for t in p.threads]} for p, s in zip(parts, starts)]}
    if bad["at"]:
        extra["rejected_event"] = open(path).read().splitlines()[bad["at"] - 1][:20000]
        for p, s in zip(parts, starts):
            if s <= bad["at"]:
                extra["part"] = p.what
    ctx.violation(bad, None, extra)
    return None


def probe(ctx, path, starts):
    """a result of a repeated operation is changed by a bit, an operand is reported changed"""
    lines = open(path).read().splitlines()
    rng = ctx.rng
    for field in ("out", "kept"):
        i = rng.choice([i for i in range(starts[-1], len(lines)) if '"Begin"' not in lines[i]])
        e = json.loads(lines[i])
        if field == "out":
            j = rng.randrange(2, len(e["out"]))
            e["out"][j] ^= 1 << rng.randrange(8)
        else:
            e["kept"] = 0
        p = ctx.path("probe.ndjson")
        with open(p, "w") as f:
            f.write("\n".join(lines[:i] + [json.dumps(e)]) + "\n")
        ok, n, _, _ = ctx.validate_trace("ValueTrace", "ValueTrace.cfg", p)
        os.unlink(p)
        if ok or n != i:
            raise ToolError("a corrupted trace was %s" % ("accepted" if ok else "rejected at %d, not %d" % (n + 1, i + 1)))
        ctx.note("binding probe: changing '%s' in line %d is rejected at that line" % (field, i + 1))
        ctx.samples.append({"line": i + 1, "event": lines[i][:600]})


def check(ctx):
    ctx.design("ValueModel")
    for d in ("place", "order", "global", "old"):
        ctx.sensitive("ValueModel", "Defect", d, "NoConflict")
    ctx.sensitive("ValueModel", "Defect", "consume", "Kept")
    rng = ctx.rng
    q = ctx.quick
    exes = build(ctx)
    jobs = []
    sets = [[(32, 128), (64, 192), (7, 96)], [(64, 192), (32, 160), (96, 256), (1, 64)], [(32, 128), (32, 192)], [(33, 130), (64, 256), (5, 64)]]
    if not q:
        sets += [[(128, 320), (96, 256), (32, 512)], [(160, 384), (160, 400)], [(32, 100), (32, 128), (64, 200), (100, 256), (3, 65)]] + sets
    for name, exe in exes.items():
        for j, keys in enumerate(sets):
            calls = programme(rng, keys, name.startswith("mu"), 40 if q else 120)
            parts = [Part(exe, [c.line(rng, New(), False) for c in calls], what="every value in its own place")]
            for r in range(2 if q else 5):
                parts.append(Part(exe, [c.line(rng, Few(), False) for c in order(rng, calls, 0.5)], poison=(0, 0xFF)[r % 2], what="few places, other orders, repeated"))
                parts.append(Part(exe, [c.line(rng, Few(), True) for c in order(rng, calls, 0.5)], poison=(0x5A, 1)[r % 2], what="results over operands"))
            parts.append(Part(exe, None, threads=[[c.line(rng, Few(), True) for c in order(rng, calls, 0.3)] for _ in range(4 if q else 8)], what="threads"))
            jobs.append(("%s %s" % (name, keys), parts))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: joint(ctx, *j), jobs))
    good = [r for r in res if r]
    if good and not ctx.violations:
        probe(ctx, *rng.choice(good))
    for r in good:
        os.unlink(r[0])
    return ["which interleavings of threads occur is up to the scheduler", "keys, messages and operations are sampled; one key generation per pair of sizes"]
