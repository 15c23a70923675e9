from vlib import Run, h

DIRS = {"BlockCiphers/Serpent": "BlockCiphers/Serpent", "Sosemanuk/serpent": "StreamCiphers/Sosemanuk"}


def schedule(ctx):
    rng = ctx.rng
    ls = []
    blk = lambda: rng.choice([bytes(16), b"\xff" * 16, rng.randbytes(16), rng.randbytes(16), (1 << rng.randrange(128)).to_bytes(16, "big")])
    for i in list(range(1, 33)) * (3 if ctx.quick else 20):
        s = rng.randrange(3)
        ls.append("LoadKey s=%d key=%s" % (s, h(rng.choice([bytes(i), b"\xff" * i, (1 << rng.randrange(8 * i)).to_bytes(i, "big")] + [rng.randbytes(i)] * 4))))
        ls += ["Process s=%d in=%s" % (s, h(blk())) for _ in range(2)]
        if i % 3 == 0:
            ls.append("Layer in=%s" % h(blk()))
    known = {int(x.split("s=")[1].split()[0]) for x in ls if x.startswith("LoadKey")}
    ls += ["Process s=%d in=%s" % (s, h(blk())) for s in known for _ in range(3)]
    return ls


def check(ctx):
    ctx.design("StreamKat", "Empty.cfg", min_states=0)
    exes = ctx.build_all({k: ("drv_serpent", d, "plain") for k, d in DIRS.items()})
    n = 2 if ctx.quick else 6
    sch = [schedule(ctx) for _ in range(n)]
    ctx.conform_all([Run(exes[k], ls, "%s schedule %d" % (k, i), "TraceSerpent", "TraceSerpent.cfg") for k in DIRS for i, ls in enumerate(sch)])
    return ["keys and blocks are sampled; every key length from 1 to 32 bytes; no key is not a supported call"]
