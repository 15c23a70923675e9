from vlib import Run, h
from .aegis import AEGIS
from . import longs
from .aes import key16, plain


def schedules(ctx):
    rng = ctx.rng
    res = []
    enc = lambda s, p, a, m, iv=None: "Encrypt s=%d p=%d iv=%s ad=%s in=%s" % (s, p, h(iv or key16(rng)), h(plain(rng, a)), h(plain(rng, m)))
    # every message length and every associated-data length up to several blocks, on one reused state
    top = 50 if ctx.quick else 130
    ls = ["LoadKey s=1 key=%s" % h(key16(rng))]
    for n in range(0, top):
        ls += [enc(1, 1, rng.choice([0, 1, 7, 15, 16, 17, 31, 40]), n), "Decrypt s=1 p=1", enc(1, 2, n, rng.choice([0, 1, 3, 15, 16, 17, 33])), "Decrypt s=1 p=2"]
        if n % 10 == 9:
            ls.append("LoadKey s=1 key=%s" % h(key16(rng)))
    res.append(ls)
    # all pairs of short lengths; two sessions, re-keying, rejected packets in between
    lens = [0, 1, 2, 4, 5, 11, 12, 13, 15, 16, 17, 28, 32, 33] if ctx.quick else list(range(0, 36))
    ls = ["LoadKey s=%d key=%s" % (s, h(key16(rng))) for s in (1, 2)]
    for a in lens:
        for m in lens:
            s = rng.choice((1, 2))
            ls.append(enc(s, s, a, m))
            if rng.random() < 0.2:
                ls.append("Decrypt s=%d p=%d%s" % (s, s, rng.choice(["", " ftag=%d" % rng.randrange(128)])))
            if rng.random() < 0.05:
                ls.append("LoadKey s=%d key=%s" % (s, h(key16(rng))))
                ls.append(enc(s, s, a, m))
    res.append(ls)
    # long packets
    ls = ["LoadKey s=1 key=%s" % h(key16(rng))]
    big = [(0, 4096), (1000, 257), (2049, 4100), (300, 2 ** 15 + 5)] + [(rng.randrange(600), rng.randrange(600)) for _ in range(8)]
    if not ctx.quick:
        big += [(2 ** 16 + 3, 2 ** 16 + 9), (2 ** 17, 5), (7, 2 ** 17 + 1)] + [(rng.randrange(3000), rng.randrange(3000)) for _ in range(60)]
    for a, m in big:
        ls += [enc(1, 1, a, m), "Decrypt s=1 p=1"]
    res.append(ls)
    return res


def longer(ctx, module, opens, probe=None):
    """long messages and long associated data; opens: what to present afterwards"""
    rng = ctx.rng
    if not ctx.fast:
        return []
    exes = ctx.build_all({k: ("drv_aegis", d, v, longs.FLAGS) for k, (d, v) in AEGIS.items()})
    runs = []
    for k, (d, v) in AEGIS.items():
        big = [(a, rng.randrange(0, 40)) for a in longs.sizes(ctx, slow=v == "arm")] + [(rng.randrange(0, 40), m) for m in longs.sizes(ctx, slow=v == "arm")]
        if v != "arm":     # more than 2^32 bits
            big += [(longs.odd(rng, 2 ** 29), rng.randrange(40)), (rng.randrange(40), longs.odd(rng, 2 ** 29))]
        if v != "arm" and not ctx.quick:
            big += [(longs.odd(rng, 2 ** 31), rng.randrange(40)), (rng.randrange(40), longs.odd(rng, 2 ** 31)), (longs.odd(rng, 2 ** 32), 7)]
        ls = ["LoadKey s=1 key=%s" % h(key16(rng))]
        for a, m in big:
            ls.append("EncryptLong s=1 iv=%s adseed=%d adn=%d seed=%d n=%d open=%s" % (h(key16(rng)), longs.seed(rng), a, longs.seed(rng), m, opens(a, m)))
        runs.append(Run(exes[k], ls, "%s long packets" % k, module, module + ".cfg", probe=probe))
    return runs


def huge(ctx):
    """associated data of more than 2^33 bytes (2^36 bits); whole blocks, so that no padded copy is needed"""
    if ctx.quick or not ctx.fast:
        return
    for k, (d, v) in AEGIS.items():
        if v != "arm":
            exe = ctx.build("drv_aegis", d, v, **longs.FLAGS)
            rng = ctx.rng
            run = Run(exe, ["LoadKey s=1 key=%s" % h(key16(rng)), "EncryptLong s=1 iv=%s adseed=%d adn=%d seed=%d n=21 open=" %
                            (h(key16(rng)), longs.seed(rng), 2 ** 33 + 16 * rng.randrange(1, 100), longs.seed(rng))], "%s 2^33" % k, "TraceAegis", "TraceAegis.cfg")
            run.timeout = 1200
            ctx.conform_all([run], probe=False)


def check(ctx):
    ctx.design("AegisKat", min_states=1)
    exes = ctx.build_all({k: ("drv_aegis", d, v) for k, (d, v) in AEGIS.items()})
    runs, first = [], None
    for k in AEGIS:
        if first is None or not ctx.quick:
            first = schedules(ctx)
        for i, ls in enumerate(first):
            runs.append(Run(exes[k], ls, "%s schedule %d" % (k, i), "TraceAegis", "TraceAegis.cfg"))
    runs += longer(ctx, "TraceAegis", lambda a, m: "ok")
    ctx.conform_all(runs)
    huge(ctx)
    return ["keys, nonces and data are sampled; the TLA+ definition of AEGIS-128 is checked against a published vector"]
