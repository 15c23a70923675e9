from . import c20, longs, modules
from .jl import JL, build_lhe, hx, message
from .joint import Part, joint_all
from .modules import place
from vlib import h

# gcc's address sanitiser makes an access outside a buffer, object, array or table a Fault event, the bounds sanitiser an
# index outside an array inside an object; where they are not available, inaccessible pages do so for the buffers
ASAN = ("-DFOOTPRINT", "-fsanitize=address,bounds-strict", "-fsanitize-undefined-trap-on-error", "-fno-omit-frame-pointer")
PAGES = ("-DFOOTPRINT",)


def check(ctx):
    ctx.design("FootprintModel")
    for d in ("lastblock", "lastword", "feedback"):
        ctx.sensitive("FootprintModel", "Defect", d, "Inside")
    rng = ctx.rng
    ms = modules.modules()
    jobs = {}
    for k, (driver, d, v, o, draw) in ms.items():
        jobs[k, 0] = (driver, d, v, o)
        jobs[k, 1] = (driver, d, v, dict(o, flags=PAGES if v == "arm" else ASAN))
        if v != "arm":
            jobs[k, 2] = (driver, d, v, dict(o, flags=PAGES + longs.FLAGS["flags"]))
    exes = ctx.build_all(jobs)
    joint = []
    for k, (driver, d, v, o, draw) in ms.items():
        ls = []
        for i in range(30 if ctx.quick else 300):
            ls += place(draw(rng), 1 + i % 5)
        # every length of packets, associated data, messages and keys in turn
        for n in range(0, 70 if ctx.quick else 200):
            modules.FORCED = n
            ls += place(draw(rng), 1 + n % 5)
        modules.FORCED = None
        parts = [Part(exes[k, 0], ls, what="plain build")]
        for b, what in ((1, "inaccessible surroundings"), (2, "inaccessible surroundings, optimised")):
            if (k, b) in exes:
                parts += [Part(exes[k, b], ls, 0x5A, a, what=what) for a in ((1, 2) if ctx.quick else (1, 2, 3, 4))]
        joint.append((k, "JointFrame.cfg", parts))
    # the homomorphic modules: their own arrays
    pair = [ctx.build("drv_jl", JL, libs=("-lgmp",)), ctx.build("drv_jl", JL, libs=("-lgmp",), flags=ASAN)]
    ls = []
    for i, (k, n) in enumerate([(1, 64), (16, 96), (33, 130), (64, 192)] + ([] if ctx.quick else [(3, 65), (100, 256), (128, 320)])):
        ls += ["Seed rng=1 seed=%d" % rng.randrange(1 << 30), "KeyGen id=%d k=%d size=%d" % (i, k, n)]
        for j in range(6 if ctx.quick else 40):
            ls += ["Encrypt s=%d id=%d rng=1 m=%s" % (j, i, hx(message(rng, k))), "Decrypt s=%d" % j]
    joint.append(("Joye-Libert", "JointProgram.cfg", [Part(e, ls, what=w) for e, w in zip(pair, ("plain build", "inaccessible surroundings"))]))
    plain, inst = build_lhe(ctx), build_lhe(ctx, ASAN)
    for name in plain:
        if name not in inst:
            continue
        for k, n in ((32, 128), (64, 192), (160, 384)):
            ls = ["Seed seed=%d" % rng.randrange(1 << 30), "KeyGen id=1 k=%d size=%d" % (k, n)]
            ls += ["MaskInit h=%d key=%s iv=%s" % (m, h(rng.randbytes(16)), h(rng.randbytes(16))) for m in (1, 2)] + ["UserKey id=1"]
            p = c20.Prog(rng, k, 1)
            for s in (1, 2, 3):
                p.op(["Encrypt", s])
            for _ in range(15 if ctx.quick else 100):
                a, b = rng.choice((1, 2, 3)), rng.choice((1, 2, 3))
                for o in ([["Encrypt", a], ["DecL", a]], [["Mult", 11, a, b], ["DecA", 11]])[rng.randrange(2)]:
                    p.op(o)
            joint.append(("%s k=%d" % (name, k), "JointProgram.cfg", [Part(e[name], ls + p.ls, what=w) for e, w in ((plain, "plain build"), (inst, "inaccessible surroundings"))]))
    joint_all(ctx, joint)
    return ["accesses are observed by gcc's address and bounds sanitisers (plain and x86 builds) and by inaccessible pages around every buffer (all builds)",
            "accesses inside one state object from one member to the next, and those of libgmp, are not observed"]
