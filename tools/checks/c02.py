from vlib import Run, sched_stream, interleave, h
from .aes import CFB, key16, plain
from . import longs


def concretise(rng, walk, s, receiver=None):
    """walk of the schedule machine: key = (key, IV) pair; packets on the sender, each also decrypted by a receiver"""
    ini = {i: (key16(rng), rng.choice([bytes(16), b"\xff" * 16, rng.randbytes(16), rng.randbytes(16)])) for i in (1, 2)}
    out = []
    for op in walk:
        a = op["arg"]
        if op["name"] == "LoadKey":
            for x in (s, receiver) if receiver else (s,):
                out.append("Initialize s=%d key=%s iv=%s" % (x, h(ini[a][0]), h(ini[a][1])))
        else:
            out.append("Encrypt s=%d in=%s" % (s, h(plain(rng, a))))
            if receiver:
                out.append("Decrypt s=%d from=%d" % (receiver, s))
    return out


def schedules(ctx):
    rng = ctx.rng
    lens = list(range(0, 34)) + [47, 48, 49, 64, 65]
    if ctx.quick:
        lens = list(range(0, 19)) + [31, 32, 33, 45]
    walks = sched_stream(ctx, "cfb", lens, nkeys=2, nivs=0, iv_needed=False, maxlen=10 ** 6 if ctx.quick else 1500)
    res = [concretise(rng, w, 1, 2) for w in walks]
    one = ["Initialize s=%d key=%s iv=%s" % (s, "00" * 16, "ff" * 16) for s in (1, 2)]
    for n in list(range(0, 100)) + [rng.randrange(100, 2500) for _ in range(6 if ctx.quick else 50)]:
        one += ["Encrypt s=1 in=%s" % h(plain(rng, n)), "Decrypt s=2 from=1"]
    for n in ([4096 + rng.randrange(40)] if ctx.quick else [4096, 8191, 16384, 65536 + rng.randrange(99)]):
        one += ["Encrypt s=1 in=%s" % h(rng.randbytes(n)), "Decrypt s=2 from=1"]
    res.append(one)
    # one state used in both directions, and decryption of arbitrary bytes
    both = []
    for _ in range(2 if ctx.quick else 10):
        both.append("Initialize s=9 key=%s iv=%s" % (h(key16(rng)), h(rng.randbytes(16))))
        both += ["%s s=9 in=%s" % (rng.choice(["Encrypt", "Decrypt"]), h(rng.randbytes(rng.randrange(0, 50)))) for _ in range(60)]
    res.append(both)
    res.append(interleave(rng, [concretise(rng, rng.choice(walks)[:150], 2 * i + 11, 2 * i + 12) for i in range(3)]))
    return res


def longer(ctx):
    rng = ctx.rng
    if not ctx.fast:
        return []
    exes = ctx.build_all({k: ("drv_aes_cfb", d, v, longs.FLAGS) for k, (d, v, r) in CFB.items()})
    runs = []
    for k, (d, v, r) in CFB.items():
        ls = ["Initialize s=1 key=%s iv=%s" % (h(rng.randbytes(16)), h(rng.randbytes(16)))]
        for n in longs.sizes(ctx, slow=v == "arm"):
            for op in ("Encrypt", "Decrypt"):
                ls += ["%sLong s=1 seed=%d n=%d" % (op, longs.seed(rng), n), "%s s=1 in=%s" % (rng.choice(["Encrypt", "Decrypt"]), h(plain(rng, rng.randrange(1, 70))))]
        label = "AES-CFB %s long packets" % k
        cfg = "TraceAesCfb.cfg" if r == 10 else "TraceAesCfb6.cfg"
        runs.append(Run(exes[k], ls, label, "TraceAesCfb", cfg))
        if not ctx.quick and v != "arm":
            runs.append(Run(exes[k], ls[:1] + ["%sLong s=1 seed=%d n=%d" % (op, longs.seed(rng), 2 ** 31 - rng.randrange(1, 40)) for op in ("Encrypt", "Decrypt")],
                            label + " (2 GiB)", "TraceAesCfb", cfg))
    return runs


def check(ctx):
    ctx.design("AesKat", "Empty.cfg", min_states=0)
    exes = ctx.build_all({k: ("drv_aes_cfb", d, v) for k, (d, v, r) in CFB.items()})
    runs, first = [], None
    for k, (d, v, r) in CFB.items():
        if first is None or not ctx.quick:
            first = schedules(ctx)
        for i, lines in enumerate(first):
            runs.append(Run(exes[k], lines, "AES-CFB %s schedule %d" % (k, i), "TraceAesCfb",
                            "TraceAesCfb.cfg" if r == 10 else "TraceAesCfb6.cfg"))
    runs += longer(ctx)
    ctx.conform_all(runs)
    return ["keys, IVs and data are sampled"]
