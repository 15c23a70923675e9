from vlib import Run, h
from .aes import key16, plain
from .stream import Proto, schedules, longer, LENS_Q, LENS_T

D = "StreamCiphers/HC-128"
PROTO = Proto(key16, key16, True, True, False)


def check(ctx):
    ctx.design("StreamKat", "Empty.cfg", min_states=0)
    rng = ctx.rng
    exe = ctx.build("drv_hc128", D)
    n = 2 if ctx.quick else 10
    runs = []
    for i, ls in enumerate(schedules(ctx, "hc128", PROTO, LENS_Q if ctx.quick else LENS_T, [2047, 2048, 2049, 4095, 4096, 4097, 8191])):
        runs.append(Run(exe, ls, "HC-128 schedule %d" % i, "TraceHc128", "TraceHc128.cfg"))
    # sessions whose packet boundaries fall on and around the points where the tables alternate (every 512 words)
    for k in range(n):
        ls = PROTO.fresh(rng, 1)
        pos = 0
        for turn in range(1, 14 if ctx.quick else 40):
            target = 512 * turn + rng.choice([-11, -3, -1, 0, 0, 1, 2, 12])
            while pos < target:
                w = min(target - pos, rng.choice([1, 3, 60, 200, 512, 1024]))
                ls.append("Process s=1 in=%s" % h(plain(rng, 4 * w - rng.choice([0, 0, 1, 2, 3]))))
                pos += w
        runs.append(Run(exe, ls, "HC-128 table alternation %d" % k, "TraceHc128", "TraceHc128.cfg"))
    # many short packets
    ls = PROTO.fresh(rng, 1)
    for _ in range(2300 if ctx.quick else 9000):
        ls.append("Process s=1 in=%s" % h(plain(rng, rng.choice([1, 2, 3, 4, 4, 5, 8]))))
    runs.append(Run(exe, ls, "HC-128 many packets", "TraceHc128", "TraceHc128.cfg"))
    # keys and IVs
    ls = []
    for _ in range(60 if ctx.quick else 600):
        ls += PROTO.fresh(rng, 1)
        ls.append("Process s=1 in=%s" % h(plain(rng, rng.randrange(1, 40))))
    runs.append(Run(exe, ls, "HC-128 keys", "TraceHc128", "TraceHc128.cfg"))
    runs += longer(ctx, "drv_hc128", D, PROTO, "HC-128", "TraceHc128")
    ctx.conform_all(runs)
    return ["keys, IVs and data are sampled; the definition is checked against the published vector"]
