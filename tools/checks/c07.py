from vlib import Run, h
from .stream import Proto, schedules, longer, LENS_Q, LENS_T

D = "StreamCiphers/ChaCha"
VARIANTS = {"plain": 20, "rounds12": 12, "rounds8": 8}
CTRS = [0, 1, 2, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]


def block(rng, s):
    c = rng.choice(CTRS + [rng.randrange(2 ** 32)] * 4)
    return "Block s=%d ctr=%s" % (s, h(c.to_bytes(4, "big")))


def key(rng):
    return rng.choice([bytes(32), b"\xff" * 32, bytes(range(32))]) if rng.random() < 0.2 else rng.randbytes(32)


def nonce(rng):
    return rng.choice([bytes(12), b"\xff" * 12]) if rng.random() < 0.2 else rng.randbytes(12)


PROTO = Proto(key, nonce, True, True, False, block)


def check(ctx):
    ctx.design("StreamKat", "Empty.cfg", min_states=0)
    rng = ctx.rng
    exes = ctx.build_all({v: ("drv_chacha", D, v) for v in VARIANTS})
    runs = []
    for v, r in VARIANTS.items():
        lens = (LENS_Q if v == "plain" else [0, 1, 3, 4, 15, 16, 63, 64, 65]) if ctx.quick else LENS_T
        big = [4097, 16384 + 60] if ctx.quick else [4097, 16384 + 60, 65535, 2 ** 17 + 3]
        sch = schedules(ctx, "chacha" + v, PROTO, lens, big)
        blocks = PROTO.fresh(rng, 7) + ["Block s=7 ctr=%s" % h(c.to_bytes(4, "big")) for c in CTRS]
        blocks += [block(rng, 7) for _ in range(30 if ctx.quick else 300)]
        blocks += ["Quarter in=%s" % h(rng.choice([bytes(64), b"\xff" * 64] + [rng.randbytes(64)] * 8)) for _ in range(40 if ctx.quick else 400)]
        for i, ls in enumerate(sch + [blocks]):
            runs.append(Run(exes[v], ls, "ChaCha%d schedule %d" % (r, i), "TraceChaCha", "TraceChaCha%d.cfg" % r))
    runs += longer(ctx, "drv_chacha", D, PROTO, "ChaCha", "TraceChaCha", {v: "TraceChaCha%d.cfg" % r for v, r in VARIANTS.items()})
    ctx.conform_all(runs)
    return ["keys, nonces and data are sampled; packets up to 2 GiB (quick) or 4 GiB (thorough)"]
