from vlib import Run, h
from .aes import key16, plain
from .stream import Proto, schedules, longer, LENS_Q, LENS_T

D = "StreamCiphers/Sosemanuk"


def key(rng):
    return rng.randbytes(rng.choice([16, 16, 32, 1, 31, 5, rng.randrange(1, 33)]))


PROTO = Proto(key, key16, False, True, True)


def check(ctx):
    ctx.design("StreamKat", "Empty.cfg", min_states=0)
    rng = ctx.rng
    exe = ctx.build("drv_sosemanuk", D)
    runs = []
    for i, ls in enumerate(schedules(ctx, "sos", PROTO, [0, 1, 3, 4, 5, 8, 12, 15, 16, 17, 31, 32, 33, 48] if ctx.quick else LENS_T, [2048, 2049])):
        runs.append(Run(exe, ls, "Sosemanuk schedule %d" % i, "TraceSosemanuk", "TraceSosemanuk.cfg"))
    ls = []
    for i in list(range(1, 33)) * (2 if ctx.quick else 12):
        ls.append("LoadKey s=1 key=%s" % h(rng.choice([bytes(i), b"\xff" * i] + [rng.randbytes(i)] * 5)))
        for _ in range(2):
            ls += ["LoadIV s=1 iv=%s" % h(key16(rng)), "Process s=1 in=%s" % h(plain(rng, rng.randrange(0, 70)))]
    runs.append(Run(exe, ls, "Sosemanuk key lengths", "TraceSosemanuk", "TraceSosemanuk.cfg"))
    runs += longer(ctx, "drv_sosemanuk", D, PROTO, "Sosemanuk", "TraceSosemanuk")
    ctx.conform_all(runs)
    return ["keys, IVs and data are sampled; every key length from 1 to 32 bytes"]
