from .joint import Part, joint_all
from .modules import build_modules, place
from vlib import interleave


def check(ctx):
    ctx.design("IsolationModel")
    for d in ("global", "leftover"):
        ctx.sensitive("IsolationModel", "Defect", d, "NoConflict")
    rng = ctx.rng
    jobs = []
    for name, (exe, draw, variant) in build_modules(ctx).items():
        n = 24 if ctx.quick else 120
        es = [draw(rng) for _ in range(n)]
        parts = [Part(exe, [x for i, e in enumerate(es) for x in place(e, i + 1)], what="each on its own object")]
        for k in range(1 if ctx.quick else 3):
            # one object, initialised again and again: every epoch after several others, also after itself and unfinished ones
            order = es * 2
            rng.shuffle(order)
            parts.append(Part(exe, [x for e in order for x in place(e if rng.random() < 0.8 else e[:rng.randrange(1, len(e) + 1)], 1)], poison=0, what="one reused object"))
            # several objects at once, each reused
            seqs = []
            for s in (1, 2, 3, 4):
                order = rng.sample(es, n // 2)
                seqs.append([x for e in order for x in place(e, s)])
            parts.append(Part(exe, interleave(rng, seqs), poison=0xFF, align=1, what="interleaved objects"))
        seqs = []
        slow = variant == "arm"     # emulated
        for s in range(1, 3 if slow else 5):
            order = es * ((1 if slow else 20) if ctx.quick else (5 if slow else 60))
            rng.shuffle(order)
            seqs.append(order)
        parts.append(Part(exe, None, threads=[[x for e in o for x in place(e, s + 1)] for s, o in enumerate(seqs)], what="threads",
                          sizes=[[len(e) for e in o] for o in seqs]))
        jobs.append((name, "JointIsolated.cfg", parts))
    joint_all(ctx, jobs)
    return ["threads use distinct objects; which interleavings of threads occur is up to the scheduler",
            "keys, nonces and data are sampled"]
