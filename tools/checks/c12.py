from vlib import Run, h, sched_stream
from .aes import plain
from . import longs

DIRS = {"Hash/SHA-256": "Hash/SHA/SHA-2/SHA-256", "HMAC/sha-256": "Authentication/HMAC-SHA-256"}
LENS_Q = [0, 1, 3, 4, 31, 32, 54, 55, 56, 57, 62, 63, 64, 65, 119, 120, 127, 128, 191]
LENS_T = list(range(0, 10)) + list(range(50, 70)) + list(range(115, 132)) + [183, 184, 191, 192, 255, 256, 511]


def skip_hmac(d):
    return {"skip": ("hmac.cpp",)} if "HMAC" in d else {}


def check(ctx):
    ctx.design("HashKat", "Empty.cfg", min_states=0)
    ctx.design("IncModel")
    rng = ctx.rng
    exes = ctx.build_all({k: ("drv_sha256", d, "plain", skip_hmac(d)) for k, d in DIRS.items()})
    # every length class after every other, then every length
    walks = sched_stream(ctx, "sha", LENS_Q if ctx.quick else LENS_T, nkeys=1, nivs=0, iv_needed=False)
    pairs = [["Hash in=%s" % h(plain(rng, op["arg"])) for op in w if op["name"] == "Process"] for w in walks]
    lens = list(range(0, 330)) + [rng.randrange(330, 4000) for _ in range(15)] if ctx.quick else \
        list(range(0, 1300)) + [64 * k + d for k in range(21, 200, 7) for d in (0, 55, 56, 63)] + [rng.randrange(1300, 60000) for _ in range(40)]
    each = ["Hash in=%s" % h(plain(rng, n)) for n in lens]
    # the same schedule on both copies, in different order, so that earlier calls differ
    runs = []
    for i, (k, e) in enumerate(exes.items()):
        chunk = list(each)
        rng.shuffle(chunk)
        m = len(chunk) // 2 if ctx.quick else len(chunk) // 4
        for j in range(0, len(chunk), m):
            runs.append(Run(e, chunk[j:j + m], "%s lengths %d" % (k, j), "TraceSha256", "TraceSha256.cfg", poison=(0xA5, 0, 0xFF)[(i + j) % 3], align=j % 2))
        for j, p in enumerate(pairs):
            runs.append(Run(e, p, "%s pairs %d" % (k, j), "TraceSha256", "TraceSha256.cfg", align=1))
    if ctx.fast:
        for k, e in ctx.build_all({k: ("drv_sha256", d, "plain", dict(skip_hmac(d), **longs.FLAGS)) for k, d in DIRS.items()}).items():
            ns = longs.sizes(ctx) + [longs.odd(rng, 2 * longs.M)]
            runs.append(Run(e, ["HashLong seed=%d n=%d" % (longs.seed(rng), n) for n in ns], "%s long" % k, "TraceSha256", "TraceSha256.cfg"))
            for g in ([29] if ctx.quick else [29, 31, 32]):
                runs.append(Run(e, ["HashLong seed=%d n=%d" % (longs.seed(rng), longs.odd(rng, 2 ** g))], "%s 2^%d bytes" % (k, g), "TraceSha256", "TraceSha256.cfg"))
    ctx.conform_all(runs)
    return ["message contents and the lengths above 330 (quick) / 1300 (thorough) are sampled"]
