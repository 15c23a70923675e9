from vlib import Run, h, interleave
from .c15 import key8, blocks, D

KNOWN = "des-ctr-counter"


def check(ctx):
    ctx.design("HashKat", "Empty.cfg", min_states=0)
    rng = ctx.rng
    exe = ctx.build("drv_des", D)
    listed = any(k["property"] == "C16" and k["id"] == KNOWN for k in ctx.findings())
    cfg = "TraceDesCtr.cfg" if listed else "TraceDesCtrStrict.cfg"
    runs = []
    for i in range(5 if ctx.quick else 24):
        ls, nonces = [], [rng.randbytes(12) for _ in range(3)] + [bytes(12), b"\xff" * 12]
        # nonces that differ in one word only, and in byte order
        nonces.append(nonces[0][:8] + rng.randbytes(4))
        nonces.append(nonces[0][:4] + rng.randbytes(4) + nonces[0][8:])
        for s in (1, 2):
            ls.append("LoadEnc s=%d key=%s" % (s, h(key8(rng))))
        for _ in range(30 if ctx.quick else 60):
            r = rng.random()
            s = rng.choice([1, 2])
            if r < 0.12:
                ls.append("LoadEnc s=%d key=%s" % (s, h(key8(rng))))
            elif r < 0.2:
                ls.append("Process s=%d in=%s" % (s, h(blocks(rng, 2))))
            else:
                m = blocks(rng, rng.choice([0, 1, 1, 2, 3, 4, 7]))
                n = h(rng.choice(nonces))
                ls.append("Ctr s=%d nonce=%s in=%s" % (s, n, h(m)))
                if rng.random() < 0.3:      # the same nonce with another message, and under the other key
                    ls.append("Ctr s=%d nonce=%s in=%s" % (3 - s, n, h(bytes(len(m)))))
        if i == 0:
            ls.append("Ctr s=1 nonce=%s in=%s" % (h(nonces[0]), h(bytes(8 * (40 if ctx.quick else 300)))))
        runs.append(Run(exe, ls, "DES-CTR %d" % i, "TraceDesCtr", cfg, align=i % 2, probe=probe))
    res = ctx.conform_all(runs)
    if ctx.known_packets and all(r is None for r in res):
        ctx.known_hit.append(KNOWN)
        ctx.note("%d packets of two or more blocks show the known defect: every block is masked alike" % ctx.known_packets)
    return ["keys, nonces and messages are sampled"]


def probe(evs):
    """second uses of a nonce with at least two blocks"""
    seen, res = set(), []
    for i, e in enumerate(evs):
        if e["e"] == "Ctr" and len(e["in"]) >= 16:
            res.append((i, "out"))
    return res
