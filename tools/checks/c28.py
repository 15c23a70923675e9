from . import c20, modules
from .jl import JL, build_lhe, hx, message
from .joint import Part, joint_all
from .modules import place
from vlib import Run, h

PROC = ("-DPROC",)
SETTINGS = ["up env", "down closed", "zero random env", "locale env up", "random env"]


def check(ctx):
    ctx.design("ProcModel")
    for d, inv in (("early", "Kept"), ("fixed", "Kept"), ("depends", "Same")):
        ctx.sensitive("ProcModel", "Defect", d, inv)
    rng = ctx.rng
    q = ctx.quick
    ms = modules.modules()
    jobs = {}
    for k, v in ms.items():
        jobs[k, 0] = v[:4]
        jobs[k, 1] = (v[0], v[1], v[2], dict(v[3], flags=PROC))
    exes = ctx.build_all(jobs)
    progs = {}       # name -> (plain, recording, schedule, configuration)
    for k, v in ms.items():
        ls, draw = [], v[4]
        for i in range(25 if q else 400):
            ls += place(draw(rng), 1 + i % 5)
        for n in range(0, 70 if q else 300):
            modules.FORCED = n
            ls += place(draw(rng), 1 + n % 5)
        modules.FORCED = None
        progs[k] = (exes[k, 0], exes[k, 1], ls, "JointBuilds.cfg")
    pair = [ctx.build("drv_jl", JL, libs=("-lgmp",), flags=f) for f in ((), PROC)]
    for k, n in [(1, 64), (16, 96), (33, 130)] + ([] if q else [(3, 65), (64, 192), (100, 256), (128, 320)]):
        ls = ["Seed rng=1 seed=%d" % rng.randrange(1 << 30), "KeyGen id=1 k=%d size=%d" % (k, n)]
        for j in range(10 if q else 60):
            ls += ["Encrypt s=%d id=1 rng=1 m=%s" % (j, hx(message(rng, k))), "Decrypt s=%d" % j]
        ls += ["Product s=90 a=0 b=1", "Decrypt s=90"]
        progs["Joye-Libert k=%d" % k] = (pair[0], pair[1], ls, "JointProgram.cfg")
    plain, rec = build_lhe(ctx), build_lhe(ctx, PROC)
    for name in plain:
        if name not in rec:
            continue
        for k, n in ((32, 128), (96, 256)):
            ls = ["Seed seed=%d" % rng.randrange(1 << 30), "KeyGen id=1 k=%d size=%d" % (k, n)]
            ls += ["MaskInit h=%d key=%s iv=%s" % (m, h(rng.randbytes(16)), h(rng.randbytes(16))) for m in (1, 2)] + ["UserKey id=1"]
            p = c20.Prog(rng, k, 1)
            for s in (1, 2, 3):
                p.op(["Encrypt", s])
            for _ in range(30 if q else 150):
                a, b, c, s = (rng.choice((1, 2, 3)) for _ in range(4))
                p.op(rng.choice([["AddL", s, a, b], ["SubL", s, a, b], ["CMulL", s, a], ["DecL", a], ["Mult", 10 + s, a, b], ["Mult3", 10 + s, a, b, c]]))
            for o in (["Mult", 14, 1, 2], ["Mult", 15, 2, 3], ["AddA", 16, 14, 15], ["SubA", 17, 14, 15], ["CMulA", 18, 14], ["DecA", 16], ["DecA", 17], ["DecA", 18]):
                p.op(o)
            progs["%s k=%d" % (name, k)] = (plain[name], rec[name], ls + p.ls, "JointProgram.cfg")
    # calls change nothing
    runs = []
    for i, (k, (_, exe, ls, _c)) in enumerate(progs.items()):
        for j, st in enumerate([""] + ([SETTINGS[i % 2 * 2]] if q else ["up", "zero random", "locale env up"])):
            runs.append(Run(exe, ls, "%s, process %s" % (k, st or "as started"), "ProcTrace", "ProcTrace.cfg", poison=(0xA5, 0, 0xFF)[(i + j) % 3],
                            env={"DRV_PROC": st} if st else {}, probe=lambda evs: [(x, "proc") for x in range(1, len(evs))]))
    ctx.conform_all(runs)
    # and depend on nothing
    joint = []
    for i, (k, (exe, _, ls, cfg)) in enumerate(progs.items()):
        sel = [SETTINGS[0], SETTINGS[1 + i % 4]] if q else SETTINGS
        joint.append((k, cfg, [Part(exe, ls, what="usual settings")] + [Part(exe, ls, what=s, env={"DRV_PROC": s}) for s in sel]))
    joint_all(ctx, joint)
    return ["observed of the process: output printed, rand(), rounding and SSE modes, locale, environment, directory, umask, signals, limits, stream formats, descriptors, threads",
            "keys, nonces and data are sampled"]
