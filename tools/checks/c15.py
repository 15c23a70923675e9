from vlib import Run, h, sched_stream, interleave
from . import longs

D = "Legacy/DES"
WEAK = ["0000000000000000", "ffffffffffffffff", "0101010101010101", "fefefefefefefefe", "1f1f1f1f0e0e0e0e", "e0e0e0e0f1f1f1f1", "133457799bbcdff1", "8000000000000000"]


def key8(rng):
    return bytes.fromhex(rng.choice(WEAK)) if rng.random() < 0.2 else rng.randbytes(8)


def blocks(rng, n):
    """8n bytes, with equal, zero and single-bit blocks among them"""
    out, last = b"", bytes(8)
    for _ in range(n):
        r = rng.random()
        b = bytes(8) if r < 0.08 else last if r < 0.2 else (1 << rng.randrange(64)).to_bytes(8, "big") if r < 0.35 else rng.randbytes(8)
        out, last = out + b, b
    return out


def walk_calls(rng, walk, s):
    out, keys = [], {i: h(key8(rng)) for i in (1, 2)}
    for op in walk:
        a = op["arg"]
        if op["name"] == "LoadKey":
            out.append("LoadEnc s=%d key=%s" % (s, keys[a]))
        elif op["name"] == "LoadIV":        # the schedule machine's second kind of load: a decryption schedule
            out.append("LoadDec s=%d key=%s" % (s, keys[a]))
        else:
            out.append("Process s=%d in=%s%s" % (s, h(blocks(rng, a)), " block=1" if a == 1 and rng.random() < 0.5 else ""))
    return out


def check(ctx):
    ctx.design("HashKat", "Empty.cfg", min_states=0)
    rng = ctx.rng
    exe = ctx.build("drv_des", D)
    runs = []

    def add(ls, label, **kw):
        runs.append(Run(exe, ls, "DES " + label, "TraceDes", "TraceDes.cfg", **kw))
    walks = sched_stream(ctx, "des", [0, 1, 2, 3, 5] if ctx.quick else [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16], nkeys=2, nivs=2, iv_needed=False, key_clears_iv=True)
    for i, w in enumerate(walks):
        add(walk_calls(rng, w, 1), "protocol %d" % i)
    # every key bit and parity, encryption and its inverse in a second object
    ls = []
    for base in ([bytes(8), rng.randbytes(8)] if ctx.quick else [bytes(8), b"\xff" * 8] + [rng.randbytes(8) for _ in range(8)]):
        for bit in range(64):
            k = (int.from_bytes(base, "big") ^ 1 << bit).to_bytes(8, "big")
            b = blocks(rng, 1)
            ls += ["LoadEnc s=1 key=%s" % h(k), "Process s=1 in=%s" % h(b), "LoadDec s=2 key=%s" % h(k), "Process s=2 in=%s" % h(b)]
    add(ls, "key bits")
    # every single input bit, and random blocks: all S-box entries are used many times
    ls = ["LoadEnc s=1 key=%s" % h(key8(rng)), "LoadDec s=2 key=%s" % h(key8(rng))]
    for bit in range(64):
        ls.append("Process s=%d in=%s" % (1 + bit % 2, h((1 << bit).to_bytes(8, "big"))))
    for i in range(30 if ctx.quick else 300):
        ls.append("Process s=%d in=%s" % (1 + i % 2, h(blocks(rng, rng.randrange(1, 7)))))
    add(ls, "block bits", poison=0)
    # round trips of the recorded bytes are implied by both directions being exact; many keys
    ls = []
    for i in range(100 if ctx.quick else 2000):
        k = h(key8(rng))
        ls += ["Load%s s=%d key=%s" % (rng.choice(["Enc", "Dec"]), i % 4, k), "Process s=%d in=%s" % (i % 4, h(blocks(rng, 1)))]
        if rng.random() < 0.3 and i > 4:
            ls.append("Process s=%d in=%s" % (rng.randrange(4), h(blocks(rng, 2))))
    add(ls, "keys")
    if ctx.fast:
        big = ctx.build("drv_des", D, "plain", **longs.FLAGS)
        ls = ["LoadEnc s=1 key=%s" % h(key8(rng)), "LoadDec s=2 key=%s" % h(key8(rng))]
        for n in longs.sizes(ctx, step=8):
            ls.append("ProcessLong s=%d seed=%d n=%d" % (rng.choice([1, 2]), longs.seed(rng), n // 8 * 8))
        runs.append(Run(big, ls, "DES long packets", "TraceDes", "TraceDes.cfg"))
        if not ctx.quick:
            runs.append(Run(big, ls[:1] + ["ProcessLong s=1 seed=%d n=%d" % (longs.seed(rng), 2 ** 31 + 8 * rng.randrange(1, 9))], "DES 2 GiB", "TraceDes", "TraceDes.cfg"))
    ctx.conform_all(runs)
    return ["keys and blocks are sampled; packets are whole blocks, as the interface requires"]
