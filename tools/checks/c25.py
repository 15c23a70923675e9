from . import modules
from .jl import JL, LHE, HC, hx, message
from .c20 import Prog
from .joint import Part, joint_all
from .modules import place
from vlib import h

# what the repository's users may compile the sources with; the first is what its own build uses
GCC = {"-O0": (), "-O1": ("-O1",), "-O2": ("-O2",), "-O3": ("-O3",), "-Os": ("-Os",), "-O3 unsigned char": ("-O3", "-funsigned-char"),
       "-O2 position independent": ("-O2", "-fPIC", "-fno-inline")}
CLANG = {"clang -O0": (), "clang -O2": ("-O2",), "clang -O3": ("-O3", "-funroll-loops")}


def builds(ctx, variant):
    g = [(k, f, None) for k, f in GCC.items()]
    c = [(k, f, "/usr/bin/clang++") for k, f in CLANG.items()]
    if variant == "arm":
        return [b for b in g if b[0] in (("-O0", "-O2", "-O3") if ctx.quick else GCC)]
    if ctx.quick:
        return [b for b in g if b[0] in ("-O0", "-O2", "-O3", "-O3 unsigned char")] + c[1:2]
    return g + c


def check(ctx):
    ctx.design("IsolationModel")
    ctx.sensitive("IsolationModel", "Defect", "build", "NoConflict")
    rng = ctx.rng
    ms = modules.modules()
    progs = {k: (v[0], [v[1]], v[2], v[3]) for k, v in ms.items()}
    progs["Joye-Libert"] = ("drv_jl", [JL], "plain", {"libs": ("-lgmp",)})
    progs["LabeledHE"] = ("drv_lhe", [LHE, JL, HC], "plain", {"libs": ("-lgmp",)})
    exes = ctx.build_all({(k, name): (d, dirs, v, dict(o, flags=f, cxx=cxx)) for k, (d, dirs, v, o) in progs.items() for name, f, cxx in builds(ctx, v)})
    jobs = []
    for k, (d, dirs, v, o) in progs.items():
        ls, cfg = [], "JointBuilds.cfg"
        if k == "Joye-Libert":
            cfg = "JointProgram.cfg"
            for i, (b, n) in enumerate([(1, 64), (16, 96), (33, 130)] + ([] if ctx.quick else [(64, 256), (128, 320)])):
                ls += ["Seed rng=1 seed=%d" % rng.randrange(1 << 30), "KeyGen id=%d k=%d size=%d" % (i, b, n)]
                for j in range(8 if ctx.quick else 40):
                    ls += ["Encrypt s=%d id=%d rng=1 m=%s" % (j, i, hx(message(rng, b))), "Decrypt s=%d" % j]
        elif k == "LabeledHE":
            cfg = "JointProgram.cfg"
            ls = ["Seed seed=%d" % rng.randrange(1 << 30), "KeyGen id=1 k=64 size=192", "MaskInit h=1 key=%s iv=%s" % (h(rng.randbytes(16)), h(rng.randbytes(16))),
                  "MaskInit h=2 key=%s iv=%s" % (h(rng.randbytes(16)), h(rng.randbytes(16))), "UserKey id=1"]
            p = Prog(rng, 64, 1)
            for s in (1, 2, 3):
                p.op(["Encrypt", s])
            for _ in range(10 if ctx.quick else 80):
                a, b = rng.choice((1, 2, 3)), rng.choice((1, 2, 3))
                for x in ([["AddL", a, a, b], ["DecL", a]], [["CMulL", b, a], ["DecL", b]], [["Mult", 11, a, b], ["DecA", 11]], [["Mult3", 13, 1, 2, 3], ["DecA", 13]])[rng.randrange(4)]:
                    p.op(x)
            ls += p.ls
        else:
            draw = ms[k][4]
            for i in range(40 if ctx.quick else 300):
                ls += place(draw(rng), 1 + i % 5)
            for n in range(0, 50 if ctx.quick else 150):
                modules.FORCED = n
                ls += place(draw(rng), 1 + n % 5)
            modules.FORCED = None
        parts = [Part(exes[k, name], ls, poison=(0xA5, 0, 0xFF)[i % 3], align=i, what=name) for i, (name, f, cxx) in enumerate(builds(ctx, v))]
        jobs.append((k, cfg, parts))
    joint_all(ctx, jobs)
    return ["the compilers are those installed here: gcc 13 and clang 18 for x86-64, gcc 13 for AArch64"]
