from . import c18, c20
from .jl import JL, build_lhe, hx, message
from .joint import Part, joint_all
from .modules import build_modules, place
from vlib import h

MEMORY = [(0xA5, 0), (0x00, 1), (0xFF, 2), (0x5A, 7), (0x80, 12345), (0x01, 99)]


def check(ctx):
    ctx.design("IsolationModel")
    for d in ("memory", "build"):
        ctx.sensitive("IsolationModel", "Defect", d, "NoConflict")
    rng = ctx.rng
    jobs = []
    mem = MEMORY[:4] if ctx.quick else MEMORY
    for name, (exe, draw, variant) in build_modules(ctx).items():
        ls = []
        for i in range(40 if ctx.quick else 300):
            ls += place(draw(rng), 1 + i % 7)
        jobs.append((name, "JointFrame.cfg", [Part(exe, ls, p, a, what="memory %02x, alignment %d" % (p, a)) for p, a in mem]))
    exe = ctx.build("drv_jl", JL, libs=("-lgmp",))
    ls = []
    for i, (k, n) in enumerate([(1, 64), (16, 96), (31, 128), (32, 160), (64, 192)] + ([] if ctx.quick else [(3, 65), (100, 256), (128, 320)])):
        ls += ["Seed rng=1 seed=%d" % rng.randrange(1 << 30), "KeyGen id=%d k=%d size=%d" % (i, k, n)]
        for j in range(6 if ctx.quick else 40):
            ls.append("Encrypt s=%d id=%d rng=1 m=%s alias=%d" % (j, i, hx(message(rng, k)), rng.randrange(2)))
            ls.append("Decrypt s=%d" % j)
        ls += ["Product s=10 a=0 b=1", "Decrypt s=10", "Power s=11 a=2 x=%s" % hx(message(rng, k)), "Decrypt s=11"]
    jobs.append(("Joye-Libert", "JointProgram.cfg", [Part(exe, ls, p, a, what="memory %02x" % p) for p, a in mem]))
    for name, exe in build_lhe(ctx).items():
        k, n = rng.choice([(32, 128), (64, 192), (96, 256)])
        ls = ["Seed seed=%d" % rng.randrange(1 << 30), "KeyGen id=1 k=%d size=%d" % (k, n)]
        ls += ["MaskInit h=%d key=%s iv=%s" % (m, h(rng.randbytes(16)), h(rng.randbytes(16))) for m in (1, 2)] + ["UserKey id=1"]
        p = c20.Prog(rng, k, 1)
        for s in (1, 2, 3):
            p.op(["Encrypt", s])
        for _ in range(30 if ctx.quick else 200):
            a, b, c = (rng.choice((1, 2, 3)) for _ in range(3))
            for o in rng.choice([[["Encrypt", a], ["DecL", a]], [[rng.choice(["AddL", "SubL"]), a, b, c], ["DecL", a]], [["CMulL", a, b], ["DecL", a]],
                                 [["Mult", 11, a, b], ["DecA", 11]], [["Mult", 11, a, b], ["Mult", 12, b, c], [rng.choice(["AddA", "SubA"]), 13, 11, 12], ["DecA", 13]],
                                 [["Mult", 11, a, b], ["CMulA", 13, 11], ["DecA", 13]], [["Mult3", 13, 1, 2, 3], ["DecA", 13]]]):
                p.op(o)
        jobs.append((name, "JointProgram.cfg", [Part(exe, ls + p.ls, q, a, what="memory %02x" % q) for q, a in mem]))
    joint_all(ctx, jobs)
    return ["influence of memory outside the declared inputs is observed through four (quick) or six (thorough) different contents of it",
            "alignments are those the modules' pointer types and existing callers use: any for byte buffers, words for key and block buffers"]
