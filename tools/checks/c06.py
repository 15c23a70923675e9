from vlib import Run, h, write_cfg
from .aegis import AEGIS
from .c05 import longer
from .aes import key16, plain

KINDS = ["genuine", "replay", "tag", "tag2", "tagswap", "tagzero", "tagother", "ct", "ad", "iv", "key", "cutct", "addct", "cutad", "addad", "ivother", "adother"]


def concretise(rng, walk, nkeys=2):
    """sender 1, receiver 2, and session 3 with another key"""
    k1, k2 = key16(rng), rng.randbytes(16)
    out = ["LoadKey s=1 key=%s" % h(k1), "LoadKey s=2 key=%s" % h(k1), "LoadKey s=3 key=%s" % h(k2)]
    p, n, a = 0, 0, 0
    for op in walk:
        kd = op["name"]
        if kd == "seal":
            p, n, a = p + 1, op["msg"], op["ad"]
            out.append("Encrypt s=1 p=%d iv=%s ad=%s in=%s" % (p, h(rng.randbytes(16)), h(rng.randbytes(a)), h(rng.randbytes(n))))
            continue
        d = "Decrypt s=2 p=%d" % p
        bit = rng.randrange
        if kd == "tag":
            d += " ftag=%d" % bit(128)
        elif kd == "tag2":      # equal or opposite changes in two places
            b, w = bit(32), rng.sample(range(4), 2)
            d += " ftag=%d,%d" % (32 * w[0] + b, 32 * w[1] + b)
        elif kd == "tagswap":
            d += " swaptag=%d" % bit(256)
        elif kd == "tagzero":
            d += " settag=%s" % rng.choice(["00" * 16, "ff" * 16])
        elif kd == "tagother":
            d += " tagof=%d" % (p - 1 if p > 1 else p)
        elif kd == "ct":
            d += " fct=%d" % bit(max(1, 8 * n))
        elif kd == "ad":
            d += " fad=%d" % bit(max(1, 8 * a))
        elif kd == "iv":
            d += " fiv=%d" % bit(128)
        elif kd == "key":
            d = d.replace("s=2", "s=3")
        elif kd in ("cutct", "cutad"):
            d += " %s=%d" % (kd, rng.choice([1, 1, 2, 4, 16]))
        elif kd in ("addct", "addad"):
            d += " %s=%d with=%d" % (kd, rng.choice([1, 1, 3, 16]), rng.choice([0, 0, 255]))
        elif kd in ("ivother", "adother"):
            d += " %s=%d" % (kd.replace("other", "of"), p - 1 if p > 1 else p)
        out.append(d)
        if kd == "replay":
            out.append(d)
    return out


def sweeps(ctx):
    """every bit of the tag, nonce, ciphertext and associated data, one after the other, genuine packets in between"""
    rng = ctx.rng
    res = []
    lens = [(0, 0), (5, 9), (16, 16), (33, 20)] if ctx.quick else [(a, m) for a in (0, 1, 15, 16, 17, 40) for m in (0, 1, 3, 4, 15, 16, 17, 40, 100)]
    for a, m in lens:
        k = key16(rng)
        ls = ["LoadKey s=1 key=%s" % h(k), "LoadKey s=2 key=%s" % h(k),
              "Encrypt s=1 p=1 iv=%s ad=%s in=%s" % (h(rng.randbytes(16)), h(rng.randbytes(a)), h(rng.randbytes(m)))]
        for f, n in (("ftag", 128), ("fiv", 128), ("fct", 8 * m), ("fad", 8 * a)):
            for b in range(n):
                ls.append("Decrypt s=2 p=1 %s=%d" % (f, b))
                if b % 16 == 5:
                    ls.append("Decrypt s=2 p=1")
        # pairs of tag bytes changed alike, and all tag words but one
        for i in range(16):
            for j in range(i):
                ls.append("Decrypt s=2 p=1 ftag=%d,%d" % (8 * i + i % 8, 8 * j + i % 8))
        for c in range(0, m + 1):
            ls.append("Decrypt s=2 p=1 cutct=%d" % c)
        for c in range(0, a + 1):
            ls.append("Decrypt s=2 p=1 cutad=%d" % c)
        for c in range(1, 18):
            ls += ["Decrypt s=2 p=1 addct=%d" % c, "Decrypt s=2 p=1 addad=%d" % c]
        ls.append("Decrypt s=2 p=1")
        res.append(ls)
    return res


def probe(evs):
    """outputs of accepted packets"""
    return [(i, "out") for i, e in enumerate(evs) if e["e"] == "Decrypt" and e["res"] == 1 and e["out"]] + \
        [(i, "sum") for i, e in enumerate(evs) if e["e"] == "OpenLong" and e["res"] == 1]


def check(ctx):
    ctx.design("AeModel")
    exes = ctx.build_all({k: ("drv_aegis", d, v) for k, (d, v) in AEGIS.items()})
    ml, al = ([0, 1, 5, 15, 16, 17, 35], [0, 3, 16, 21]) if ctx.quick else ([0, 1, 2, 3, 4, 5, 12, 14, 15, 16, 17, 31, 32, 33, 64, 100], [0, 1, 7, 15, 16, 17, 32, 50])
    cfg = write_cfg(ctx, "SchedAe.cfg", "SPECIFICATION Spec\nCONSTANTS Kinds = {%s}\n MsgLens = {%s}\n AdLens = {%s}\nVIEW View\nACTION_CONSTRAINT PrintEdge\nCHECK_DEADLOCK FALSE\n" % (
        ",".join('"%s"' % k for k in KINDS), ",".join(map(str, ml)), ",".join(map(str, al))))
    es = ctx.edges("SchedAe", cfg)
    runs, first = [], None
    for k in AEGIS:
        if first is None or not ctx.quick:
            first = [concretise(ctx.rng, w) for _ in range(1 if ctx.quick else 4) for w in ctx.tours(es, ["none", 0], 2000)] + sweeps(ctx)
        for i, ls in enumerate(merge(first, 3) if ctx.quick else first):
            runs.append(Run(exes[k], ls, "%s channel %d" % (k, i), "TraceAeChannel", "TraceAeChannel.cfg", probe=probe))
    def opens(a, m):
        r = ctx.rng.randrange
        kinds = ["ct%d" % (m - 1 - r(min(m, 20)))] * (m > 0) + ["ct%d" % r(max(m, 1))] * (m > 0) + ["ad%d" % (a - 1 - r(min(a, 20)))] * (a > 0) + \
                ["ad%d" % r(max(a, 1))] * (a > 0) + ["tag%d" % r(16), "iv%d" % r(16)]
        return ",".join(["ok"] + (kinds if max(a, m) < 2 ** 28 else ctx.rng.sample(kinds, 1)) + ["ok"] * (max(a, m) < 2 ** 28))
    runs += longer(ctx, "TraceAeChannel", opens, probe)
    ctx.conform_all(runs)
    return ["a forgery accepted with the 2^-128 probability the algorithm allows would be reported as a violation"]


def merge(seqs, n):
    """concatenate call sequences into at most n (their packet numbers and sessions are re-initialised anyway)"""
    out = [[] for _ in range(min(n, len(seqs)))]
    for i, s in enumerate(seqs):
        out[i % len(out)].extend(s)
    return out
