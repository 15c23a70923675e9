from vlib import Run, sched_stream, interleave, h
from .aes import CTR, key16, plain
from . import longs


def concretise(rng, walk, s):
    """a walk of the schedule machine as calls on session s"""
    keys = {i: key16(rng) for i in (1, 2)}
    ivs = {1: rng.randbytes(12), 2: rng.choice([bytes(12), b"\xff" * 12, rng.randbytes(12)])}
    out = []
    for op in walk:
        a = op["arg"]
        if op["name"] == "LoadKey":
            out.append("LoadKey s=%d key=%s" % (s, h(keys[a])))
        elif op["name"] == "LoadIV":
            out.append("LoadIV s=%d iv=%s" % (s, h(ivs[a])))
        else:
            out.append("Process s=%d in=%s" % (s, h(plain(rng, a))))
            if rng.random() < 0.05:
                out.append("Block s=%d" % s)
    return out


def schedules(ctx, scale=1):
    rng = ctx.rng
    lens = list(range(0, 34)) + [47, 48, 49, 64, 65]
    if ctx.quick:
        lens = [0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 15, 16, 17, 19, 20, 23, 29, 31, 32, 33, 48, 63]
    walks = sched_stream(ctx, "ctr", lens, nkeys=2, nivs=2, maxlen=10 ** 6 if ctx.quick else 3000)
    res = [concretise(rng, w, 1) for w in walks]
    # every length on its own, long packets, counter carries
    one = ["LoadKey s=1 key=%s" % h(rng.randbytes(16)), "LoadIV s=1 iv=%s" % h(rng.randbytes(12))]
    for n in list(range(0, 130)) + [rng.randrange(130, 3000) for _ in range(8 if ctx.quick else 60)]:
        one.append("Process s=1 in=%s" % h(plain(rng, n)))
    for n in ([4096 + rng.randrange(40)] if ctx.quick else [4096, 8191, 16384, 65536 + rng.randrange(99), 70001]):
        one.append("Process s=1 in=%s" % h(rng.randbytes(n)))
    res.append(one)
    # counter positions: reached by processing, and (state layout permitting) set directly
    ctr = []
    for b in ([255, 65535] if ctx.quick else [255, 65535, 65536 * 3 - 1, (1 << 20) - 1, (1 << 24) - 1]):
        ctr += ["LoadKey s=2 key=%s" % h(key16(rng)), "LoadIV s=2 iv=%s" % h(rng.randbytes(12)), "Burn s=2 blocks=%d" % (b - 2)]
        ctr += ["Process s=2 in=%s" % h(plain(rng, n)) for n in (5, 40, 16, 3, 80)]
    cs = [0, 1, 0x7f, 0xfe, 0xffff, 0xfffe, 0xffffff, 0xfffffe, 0x7ffffffe, 0x7fffffff, 0x80000000, 0xfffffffd, 0xffffffff, 0x00ff00ff, 0xff00ff00]
    cs += [rng.randrange(1 << 32) for _ in range(10 if ctx.quick else 60)]
    for c in cs:
        ctr += ["SetCounter s=2 ctr=%s" % h(c.to_bytes(4, "big"))]
        ctr += ["Process s=2 in=%s" % h(plain(rng, n)) for n in (16, rng.randrange(1, 16), 33, 16)]
    res.append(ctr)
    # sessions of different keys interleaved
    res.append(interleave(rng, [concretise(rng, w[:200], i + 3) for i, w in enumerate(
        [rng.sample(walks, 1)[0] for _ in range(3)])]))
    return res


def longer(ctx):
    rng = ctx.rng
    if not ctx.fast:
        return []
    exes = ctx.build_all({k: ("drv_aes_ctr", d, v, longs.FLAGS) for k, (d, v, r) in CTR.items()})
    runs = []
    for k, (d, v, r) in CTR.items():
        ls = ["LoadKey s=1 key=%s" % h(rng.randbytes(16)), "LoadIV s=1 iv=%s" % h(rng.randbytes(12))]
        for n in longs.sizes(ctx, slow=v == "arm"):
            ls += ["ProcessLong s=1 seed=%d n=%d" % (longs.seed(rng), n), "Process s=1 in=%s" % h(plain(rng, rng.randrange(1, 70)))]
        label = "AES-CTR %s long packets" % k
        cfg = "TraceAesCtr.cfg" if r == 10 else "TraceAesCtr6.cfg"
        runs.append(Run(exes[k], ls, label, "TraceAesCtr", cfg))
        if not ctx.quick and v != "arm":       # the largest packet the interface admits
            runs.append(Run(exes[k], ls[:2] + ["ProcessLong s=1 seed=%d n=%d" % (longs.seed(rng), 2 ** 31 - rng.randrange(1, 40))], label + " (2 GiB)", "TraceAesCtr", cfg))
    return runs


def check(ctx):
    ctx.design("AesKat", "Empty.cfg", min_states=0)
    exes = ctx.build_all({k: ("drv_aes_ctr", d, v) for k, (d, v, r) in CTR.items()})
    runs = []
    for k, (d, v, r) in CTR.items():
        for i, lines in enumerate(schedules(ctx) if not ctx.quick or k == "AES/plain" else first):
            runs.append(Run(exes[k], lines, "AES-CTR %s schedule %d" % (k, i), "TraceAesCtr",
                            "TraceAesCtr.cfg" if r == 10 else "TraceAesCtr6.cfg"))
        if k == "AES/plain":
            first = [r_.lines for r_ in runs]
    runs += longer(ctx)
    ctx.conform_all(runs)
    return ["keys, nonces and data are sampled; AES itself is compared with a TLA+ definition checked against FIPS 197 vectors",
            "the 2^32 counter wrap is reached by setting the counter register when the state has its documented layout"]
