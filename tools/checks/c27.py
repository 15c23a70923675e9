from . import c20, modules
from .jl import JL, build_lhe, hx, message
from .modules import place
from vlib import Run, h

BLOCKS, BYTES = ("-DHEAP=1",), ("-DHEAP=2",)


def laps(lines, n):
    return [x for i in range(n) for x in ["Lap warm=%d" % (i < 2)] + lines]


def late(evs):
    last = max(i for i, e in enumerate(evs) if e["e"] == "Lap")
    return [(i, "held") for i in range(last + 1, len(evs))]


def check(ctx):
    ctx.design("HeapModel")
    ctx.design("HeapModel", "HeapReader_early.cfg")
    ctx.design("HeapModel", "HeapReader_renew.cfg")
    ctx.sensitive("HeapModel", "Defect", "early", "Bounded")
    ctx.sensitive("HeapModel", "Defect", "renew", "Bounded")
    rng = ctx.rng
    q = ctx.quick
    ms = modules.modules()
    # a static C library defines malloc itself; the first definition counts
    exes = ctx.build_all({k: (v[0], v[1], v[2], dict(v[3], flags=BYTES, libs=("-Wl,-z,muldefs",))) for k, v in ms.items()})
    runs = []

    def add(exe, what, ls, n, i=0):
        runs.append(Run(exe, laps(ls, n), what, "HeapTrace", "HeapTrace.cfg", poison=(0xA5, 0, 0xFF)[i % 3], probe=late))

    for i, (k, (driver, d, v, o, draw)) in enumerate(ms.items()):
        ls = []
        for j in range(40 if q else 300):
            e = place(draw(rng), 1 + j % 5)
            ls += e if rng.random() < 0.8 else e[:rng.randrange(1, len(e) + 1)]      # not every session is brought to its end
        for n in range(0, 70 if q else 300):
            modules.FORCED = n
            ls += place(draw(rng), 1 + n % 5)
        modules.FORCED = None
        add(exes[k], k, ls, 5 if q else 8, i)
        # the same few calls very often
        ls = []
        while len(ls) < 12:
            ls += place(draw(rng), 1)
        add(exes[k], k + " often", ls, 60 if q else 1000, i + 1)
    # the homomorphic modules.  What a number occupies depends on its value: blocks are counted, not bytes
    exe = ctx.build("drv_jl", JL, libs=("-lgmp",), flags=BLOCKS)
    for i, (k, n) in enumerate([(1, 64), (8, 96), (33, 130), (64, 192)] + ([] if q else [(3, 65), (16, 80), (100, 256), (128, 320), (64, 512)])):
        ls = ["Seed rng=1 seed=%d" % rng.randrange(1 << 30), "KeyGen id=1 k=%d size=%d" % (k, n)]
        ms_ = [max(1, message(rng, k)) for _ in range(8 if q else 30)]
        for j, m in enumerate(ms_):
            ls += ["Encrypt s=%d id=1 rng=1 m=%s alias=%d" % (j, hx(m), j % 3 == 2), "Decrypt s=%d" % j]
        ls += ["Product s=50 a=0 b=1", "Decrypt s=50", "Power s=51 a=0 x=%s" % hx(message(rng, k)), "Decrypt s=51"]
        add(exe, "Joye-Libert k=%d" % k, ls, 6 if q else 12, i)
    for name, exe in build_lhe(ctx, BLOCKS).items():
        for i, (k, n) in enumerate(((32, 128), (64, 192)) if q else ((32, 128), (64, 192), (96, 256), (160, 384))):
            ls = ["Seed seed=%d" % rng.randrange(1 << 30), "KeyGen id=1 k=%d size=%d" % (k, n)]
            ls += ["MaskInit h=%d key=%s iv=%s" % (m, h(rng.randbytes(16)), h(rng.randbytes(16))) for m in (1, 2)] + ["UserKey id=1"]
            p = c20.Prog(rng, k, 1)
            for s in (1, 2, 3):
                p.op(["Encrypt", s])
            for _ in range(30 if q else 100):
                a, b, c = (rng.choice((1, 2, 3)) for _ in range(3))
                s = rng.choice((4, 5, 6))
                r = 10 + s
                p.op(rng.choice([["Encrypt", s], ["AddL", s, a, b], ["SubL", s, a, b], ["CMulL", s, a], ["DecL", a],
                                 ["Mult", r, a, b], ["Mult3", r, a, b, c]]))
            p.op(["Mult", 14, 1, 2])
            p.op(["Mult", 15, 2, 3])
            for o in (["AddA", 16, 14, 15], ["SubA", 17, 14, 15], ["CMulA", 18, 14], ["DecA", 16], ["DecA", 17], ["DecA", 18]):
                p.op(o)
            add(exe, "%s k=%d" % (name, k), ls + p.ls, 6 if q else 12, i)
    ctx.conform_all(runs)
    return ["memory is observed where malloc and its relatives hand it out, files by their descriptors",
            "keys, nonces and data are sampled; every length below 70 (300) occurs in every module"]
