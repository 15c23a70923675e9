from vlib import Run, h, write_cfg
from .aes import CFB, key16, plain


def concretise(rng, walk):
    """sender 1, receiver 2 on one key; faults as the schedule says"""
    key, iv = key16(rng), rng.randbytes(16)
    init = lambda s, v: "Initialize s=%d key=%s iv=%s" % (s, h(key), h(v))
    out = [init(1, iv), init(2, iv)]
    for op in walk:
        n = op["len"]
        if op["name"] == "wrongiv":
            out.append(init(2, rng.randbytes(16)))
            continue
        out.append("Encrypt s=1 in=%s" % h(plain(rng, n)))
        if op["name"] == "deliver":
            out.append("Decrypt s=2 from=1")
        elif op["name"] == "corrupt":
            out.append("Decrypt s=2 from=1 flip=%d" % (8 * (op["pos"] - 1) + rng.randrange(8)))
    return out


def probe(evs):
    return [(i, "out") for i in range(1, len(evs)) if evs[i]["e"] == "Decrypt" and evs[i - 1]["e"] == "Encrypt" and evs[i]["in"]
            and evs[i]["in"] == evs[i - 1]["out"] and evs[i]["out"] == evs[i - 1]["in"]]


def check(ctx):
    ctx.design("CfbModel", "CfbModel.cfg" if ctx.quick else "CfbModelDeep.cfg", min_states=1000)
    exes = ctx.build_all({k: ("drv_aes_cfb", d, v) for k, (d, v, r) in CFB.items()})
    cfg = "SchedChannel.cfg"
    if ctx.quick:
        cfg = write_cfg(ctx, "SchedQ.cfg", open(ctx.spec + "/SchedChannel.cfg").read().replace(
            "{0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 15, 16, 17, 18, 20, 31, 33}", "{0, 1, 3, 4, 6, 8, 11, 12, 15, 16, 17, 20}"))
    es = ctx.edges("SchedChannel", cfg)
    runs, lines = [], None
    for k in CFB:
        if lines is None or not ctx.quick:
            lines = [concretise(ctx.rng, w) for w in ctx.tours(es, [16, "deliver"], 1500)]
        for i, ls in enumerate(lines):
            runs.append(Run(exes[k], ls, "CFB channel %s %d" % (k, i), "TraceCfbChannel", "TraceCfbChannel.cfg", probe=probe))
    ctx.conform_all(runs)
    return ["the cipher is uninterpreted here (its value is C02's subject); a lost or corrupted packet does not change the"
            " number of packets the receiver believes to have received, packet boundaries are preserved"]
