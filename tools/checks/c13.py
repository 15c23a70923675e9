from vlib import Run, h, sched_stream, interleave
from .aes import plain
from . import longs

D = "Authentication/HMAC-SHA-256"
LENS_Q = [0, 1, 16, 54, 55, 56, 63, 64, 65, 127]
KEYS = [0, 1, 16, 31, 32, 33, 63, 64, 65, 100, 119, 120, 127, 128, 131]


def session(rng, s, keylens, ops):
    """(message length or None for a key load, what to do with the tag)"""
    out = ["LoadKey s=%d key=%s" % (s, h(plain(rng, rng.choice(keylens))))]
    for n in ops:
        m = h(plain(rng, n))
        t = rng.choice([32, 32, 16, 16, 1, 2, 4, 31, rng.randrange(1, 33)])
        out.append("Tag s=%d in=%s len=%d" % (s, m, t))
        kind = rng.randrange(8)
        v = "Validate s=%d in=%s" % (s, m)
        if kind == 0:
            v = "Validate s=%d in=%s" % (s, h(rng.randbytes(n)))
        elif kind <= 3:
            v += " flip=%d" % rng.randrange(8 * t)
        elif kind == 4:
            b = rng.randrange(8)
            v += " flip=%d flip2=%d" % (8 * rng.randrange(t) + b, 8 * rng.randrange(t) + b)
        elif kind == 5:
            v += " cut=%d" % rng.randrange(t)
        elif kind == 6:
            v += " tag=%s" % rng.choice(["00" * t, "ff" * t])
        out.append(v)
        if kind and rng.random() < 0.5:
            out.append("Validate s=%d in=%s" % (s, m))
        if rng.random() < 0.1:
            out.append("LoadKey s=%d key=%s" % (s, h(plain(rng, rng.choice(keylens)))))
    return out


def probe(evs):
    """generated tags"""
    return [(i, "tag") for i, e in enumerate(evs) if e["e"] in ("Tag", "TagLong") and e["tag"]]


def check(ctx):
    ctx.design("HashKat", "Empty.cfg", min_states=0)
    rng = ctx.rng
    exe = ctx.build("drv_hmac", D)
    runs = []

    def add(ls, label, **kw):
        runs.append(Run(exe, ls, "HMAC " + label, "TraceHmac", "TraceHmac.cfg", probe=probe, **kw))
    for i, w in enumerate(sched_stream(ctx, "hmac", LENS_Q if ctx.quick else LENS_Q + [2, 31, 32, 118, 119, 120, 128, 200], nkeys=1, nivs=0, iv_needed=False)):
        add(session(rng, 1, KEYS, [op["arg"] for op in w if op["name"] == "Process"]), "pairs %d" % i, align=1)
    # every key length, each key used for an empty and another message
    ls = []
    for n in range(0, 140 if ctx.quick else 300):
        ls += ["LoadKey s=1 key=%s" % h(plain(rng, n)), "Tag s=1 in=%s" % h(plain(rng, rng.choice([0, 0, 5, 64])))]
    add(ls, "key lengths")
    # every message length
    ls = []
    for n in range(0, 140 if ctx.quick else 600):
        if n % 40 == 0:
            ls.append("LoadKey s=1 key=%s" % h(plain(rng, rng.choice(KEYS))))
        ls += ["Tag s=1 in=%s len=%d" % (h(plain(rng, n)), n % 32 + 1), ]
    add(ls, "message lengths", poison=0)
    # every bit of tags of several lengths; every tag length
    ls = ["LoadKey s=1 key=%s" % h(rng.randbytes(20))]
    m = h(rng.randbytes(9))
    for t in ([32, 16] if ctx.quick else range(1, 33)):
        ls.append("Tag s=1 in=%s len=%d" % (m, t))
        for b in range(8 * t):
            ls.append("Validate s=1 in=%s flip=%d" % (m, b))
        for i in range(t):
            ls.append("Validate s=1 in=%s flip=%d flip2=%d" % (m, 8 * i + i % 8, 8 * rng.randrange(t) + i % 8))
            ls.append("Validate s=1 in=%s cut=%d" % (m, i))
    add(ls, "tag bits")
    # several keys interleaved, tags of one presented to another
    for i in range(1 if ctx.quick else 6):
        seqs = [session(rng, s, KEYS, [rng.choice(LENS_Q) for _ in range(20 if ctx.quick else 60)]) for s in (1, 2, 3)]
        ls = interleave(rng, seqs)
        ls += ["Validate s=%d of=%d in=%s" % (s, t, h(b"x")) for s in (1, 2, 3) for t in (1, 2, 3)]
        add(ls, "interleaved %d" % i)
    if ctx.fast:
        big = ctx.build("drv_hmac", D, "plain", **longs.FLAGS)
        ls = ["LoadKey s=1 key=%s" % h(plain(rng, rng.choice(KEYS)))]
        for n in longs.sizes(ctx) + [longs.odd(rng, 2 * longs.M)]:
            sd = longs.seed(rng)
            ls += ["TagLong s=1 seed=%d n=%d len=%d" % (sd, n, rng.choice([32, 16])), "ValidateLong s=1 seed=%d n=%d" % (sd, n),
                   "ValidateLong s=1 seed=%d n=%d flip=%d" % (sd, n, rng.randrange(128)), "ValidateLong s=1 seed=%d n=%d" % (sd + 1, n)]
        runs.append(Run(big, ls, "HMAC long messages", "TraceHmac", "TraceHmac.cfg", probe=probe))
        for g in ([29] if ctx.quick else [29, 31, 32]):
            sd, n = longs.seed(rng), longs.odd(rng, 2 ** g)
            runs.append(Run(big, ls[:1] + ["TagLong s=1 seed=%d n=%d" % (sd, n)] + ([] if ctx.quick else ["ValidateLong s=1 seed=%d n=%d" % (sd, n)]),
                            "HMAC 2^%d bytes" % g, "TraceHmac", "TraceHmac.cfg"))
    ctx.conform_all(runs)
    return ["keys and messages are sampled at every length in the stated ranges"]
