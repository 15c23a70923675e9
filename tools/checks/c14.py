from vlib import Run, h, sched_stream, interleave
from .aes import plain
from . import longs

D = "Legacy/MD5"
LENS_Q = [0, 1, 8, 31, 55, 56, 57, 63, 64, 65, 127, 128]
LENS_T = [0, 1, 2, 7, 8, 9, 31, 32, 33, 54, 55, 56, 57, 62, 63, 64, 65, 119, 120, 127, 128, 129, 200]


def pieces(rng, s, lens, every=4):
    out = ["Start s=%d" % s]
    for i, n in enumerate(lens):
        out.append("Update s=%d in=%s" % (s, h(plain(rng, n))))
        if rng.random() < 1.0 / every:
            out += ["Final s=%d" % s, "Start s=%d" % s]
    return out + ["Final s=%d" % s]


def check(ctx):
    ctx.design("HashKat", "Empty.cfg", min_states=0)
    ctx.design("IncModel")
    rng = ctx.rng
    exe = ctx.build("drv_md5", D)
    runs = []

    def add(ls, label, exe=exe, **kw):
        runs.append(Run(exe, ls, "MD5 " + label, "TraceMd5", "TraceMd5.cfg", **kw))
    for i, w in enumerate(sched_stream(ctx, "md5", LENS_Q if ctx.quick else LENS_T, nkeys=1, nivs=0, iv_needed=False)):
        add(pieces(rng, 1, [op["arg"] for op in w if op["name"] == "Process"]), "pieces %d" % i, poison=0, align=1)
    ls = []
    for n in range(0, 270 if ctx.quick else 1200):
        ls.append("Whole s=%d in=%s" % (n % 3, h(plain(rng, n))))
    add(ls, "one call, every length")
    # one message, cut at every place
    for n in ([130] if ctx.quick else [56, 64, 119, 130, 192]):
        m, ls = rng.randbytes(n), []
        for i in range(n + 1):
            ls += ["Start s=1", "Update s=1 in=%s" % h(m[:i]), "Update s=1 in=%s" % h(m[i:]), "Final s=1"]
        add(ls, "cuts of %d" % n)
    # byte by byte and in random pieces
    ls = pieces(rng, 1, [1] * 150, 1000)
    for _ in range(20 if ctx.quick else 200):
        ls += pieces(rng, 1, [rng.choice([0, 1, rng.randrange(70), rng.randrange(200)]) for _ in range(rng.randrange(1, 7))], 1000)
    add(ls, "random pieces", poison=0xFF)
    # length field beyond 2^32 bits: the context is told it has already seen that much
    ls = []
    for lo, hi in [("fffffff8", "00000000"), ("fffffe00", "00000000"), ("fffffe00", "00000007"), ("00000000", "ffffffff"), ("80000000", "00000001"),
                   ("fffffe00", "ffffffff")] + [("%08x" % (rng.randrange(2 ** 23) << 9), "%08x" % rng.randrange(2 ** 32)) for _ in range(10 if ctx.quick else 60)]:
        # whole blocks so far, except where the low word says otherwise
        k = (int(lo, 16) // 8) % 64
        for n in (0, 1, 55, 64, 100):
            ls += ["Start s=1"] + (["Update s=1 in=%s" % h(rng.randbytes(k))] if k else []) + \
                  ["Skip s=1 lo=%s hi=%s" % (lo, hi), "Update s=1 in=%s" % h(plain(rng, n)), "Final s=1"]
    add(ls, "long messages")
    for i in range(1 if ctx.quick else 6):
        seqs = [pieces(rng, s, [rng.choice(LENS_Q) for _ in range(25 if ctx.quick else 80)], 5) for s in (1, 2, 3)]
        seqs.append(["Whole s=4 in=%s" % h(plain(rng, rng.choice(LENS_Q))) for _ in range(20)])
        add(interleave(rng, seqs), "interleaved %d" % i)
    if ctx.fast:
        big = ctx.build("drv_md5", D, "plain", **longs.FLAGS)
        ls = []
        for n in longs.sizes(ctx):
            ls += ["Start s=1", "Update s=1 in=%s" % h(plain(rng, rng.randrange(0, 70))), "UpdateLong s=1 seed=%d n=%d" % (longs.seed(rng), n),
                   "Update s=1 in=%s" % h(plain(rng, rng.randrange(0, 70))), "Final s=1"]
        add(ls, "long pieces", exe=big)
        # more than 2^32 bits in one and in several pieces; the longest piece that one call admits, and a block boundary just before its end
        for ns in [[longs.odd(rng, 2 ** 29)], [2 ** 32 - rng.randrange(1, 63)]] + ([] if ctx.quick else [[longs.odd(rng, 2 ** 31)], [2 ** 29 - 9] * 9]):
            ls = ["Start s=1", "Update s=1 in=%s" % h(plain(rng, rng.randrange(1, 64)))]
            ls += ["UpdateLong s=1 seed=%d n=%d" % (longs.seed(rng), n) for n in ns] + ["Final s=1"]
            add(ls, "pieces %s" % ns[:2], exe=big)
    ctx.conform_all(runs)
    return ["messages beyond 2^32 bytes are also represented by setting the context's length counter"]
