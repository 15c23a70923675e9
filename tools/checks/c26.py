from . import modules
from .joint import Part, joint_all
from .modules import place

# modes in which a byte of output depends on its own byte or block of input only
KINDS = ("CTR", "ChaCha", "HC-128", "Rabbit", "Sosemanuk", "DES")


def check(ctx):
    ctx.design("InPlaceModel")
    ctx.sensitive("InPlaceModel", "Defect", "keystreamfirst", "Right")
    ctx.sensitive("InPlaceModel", "Defect", "feedback", "Kept")
    rng = ctx.rng
    ms = {k: v for k, v in modules.modules().items() if k.startswith(KINDS)}
    exes = ctx.build_all({k: v[:4] for k, v in ms.items()})
    jobs = []
    for k, (driver, d, v, o, draw) in ms.items():
        ls = []
        for i in range(60 if ctx.quick else 600):
            ls += place(draw(rng), 1 + i % 5)
        for n in range(0, 140 if ctx.quick else 600):
            modules.FORCED = n
            ls += place(draw(rng), 1 + n % 5)
        modules.FORCED = None
        parts = [Part(exes[k], ls, what="separate buffers")]
        parts += [Part(exes[k], ls, p, a, what="in place", env={"DRV_INPLACE": "1"}) for p, a in (((0, 1), (0x5A, 3)) if ctx.quick else ((0, 1), (0x5A, 3), (0xFF, 0), (1, 12)))]
        jobs.append((k, "JointFrame.cfg", parts))
        if v != "arm" and k != "DES":
            # long packets: input and output cover many pages
            start = next(e for e in iter(lambda: draw(rng), 0) if e)
            first = [x for x in place(start, 1) if not x.startswith(("Process", "Ctr", "Keystream"))]
            ls = first + ["ProcessLong s=1 seed=%d n=%d" % (rng.randrange(1 << 30), n) for n in ((5000, 65537, (1 << 20) + 3) if ctx.quick else (5000, 65537, (1 << 20) + 3, (1 << 24) + 13, (1 << 27) + 6))]
            jobs.append((k + " long", "JointFrame.cfg", [Part(exes[k], ls, what="separate buffers"), Part(exes[k], ls, 0, 1, what="in place", env={"DRV_INPLACE": "1"})]))
    joint_all(ctx, jobs, probe_fields=("out",))
    return ["the output begins exactly where the input begins; partly overlapping buffers are not claimed",
            "feedback modes and AEGIS encryption need the input after they have written, and are not claimed"]
