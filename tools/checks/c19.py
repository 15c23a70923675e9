from vlib import Run
from .jl import JL, hx, message, sizes


def check(ctx):
    ctx.design("JlModel", min_states=1000)
    rng = ctx.rng
    exe = ctx.build("drv_jl", JL, libs=("-lgmp",))
    sz = sizes(ctx)
    runs = []
    parts = 7 if ctx.quick else 16
    for i in range(parts):
        ls = ["Seed rng=1 seed=%d" % rng.randrange(1 << 30)]
        for j, (k, n) in enumerate(sz[i::parts]):
            ls.append("KeyGen id=%d k=%d size=%d" % (j, k, n))
            slot = 0
            # every message of small spaces, every single bit, and the complements
            ms = list(range(1 << k)) if k <= (3 if ctx.quick else 7) else \
                [1 << b for b in range(k)] + [((1 << k) - 1) ^ (1 << b) for b in range(k)] + [0, (1 << k) - 1] + \
                [message(rng, k) for _ in range(10 if ctx.quick else 60)]
            if ctx.quick and len(ms) > 90:
                ms = rng.sample(ms, 90)
            for m in ms:
                slot += 1
                ls.append("Encrypt s=%d id=%d rng=%d m=%s alias=%d" % (slot, j, rng.choice([1, 1, 2]), hx(m), rng.random() < 0.2))
                ls.append("Decrypt s=%d" % slot)
            # the same message again
            for _ in range(3):
                ls.append("Encrypt s=%d id=%d rng=1 m=%s" % (slot + 1, j, hx(ms[0])))
            # chains of operations over a few slots
            for _ in range(25 if ctx.quick else 120):
                a, b, s = (rng.randrange(1, slot + 1) for _ in range(3))
                if rng.random() < 0.6:
                    ls.append("Product s=%d a=%d b=%d" % (s, a, b))
                else:
                    ls.append("Power s=%d a=%d x=%s" % (s, a, hx(message(rng, k))))
                ls.append("Decrypt s=%d" % s)
            # arbitrary units
            for _ in range(8 if ctx.quick else 40):
                ls.append("Raw id=%d c=%s" % (j, hx(rng.getrandbits(n + 8) or 1)))
            ls.append("Raw id=%d c=1" % j)
        runs.append(Run(exe, ls, "Joye-Libert %d" % i, "TraceJl", "TraceJl.cfg", probe=probe))
    runs += tiny(ctx, exe)
    ctx.conform_all(runs)
    return ["keys are those key generation returns for the driven sizes; messages and randomness are sampled beyond the exhaustive small spaces"]


# primes p with (p - 1) / 2^k prime
CASES = [(7, 1), (11, 1), (23, 1), (47, 1), (13, 2), (29, 2), (53, 2), (149, 2), (41, 3), (89, 3), (137, 3), (113, 4), (97, 5), (193, 6), (769, 8)]


def tiny(ctx, exe):
    """keys so small that every message is driven with a fair part of the randomisers there are, and every unit decrypted"""
    rng = ctx.rng
    runs = []
    cases = CASES[:]
    rng.shuffle(cases)
    parts = 3 if ctx.quick else 8
    for part in range(parts):
        ls = ["Seed rng=1 seed=%d" % rng.randrange(1 << 30), "Seed rng=2 seed=%d" % rng.randrange(1 << 30)]
        ident = 100
        for p, k in (cases[part::parts] if ctx.quick else cases):
            for q in rng.sample([x for x in (7, 11, 19, 23, 31, 43, 47, 59, 67, 71, 79, 83) if x != p], 1 if ctx.quick else 3):
                n = p * q
                ys = [y for y in range(2, n) if pow(y, (p - 1) // 2, p) == p - 1 and pow(y, (q - 1) // 2, q) == q - 1]
                for y in rng.sample(ys, min(len(ys), 2 if ctx.quick else 4)):
                    ident += 1
                    ls.append("SetKey id=%d k=%d n=%s y=%s p=%s" % (ident, k, hx(n), hx(y), hx(p)))
                    ms = list(range(1 << k))
                    for m in ms * max(1, (24 if ctx.quick else 60) // len(ms)):
                        ls += ["Encrypt s=1 id=%d rng=%d m=%s" % (ident, rng.choice([1, 2]), hx(m)), "Decrypt s=1"]
                        if rng.random() < 0.1:
                            ls += ["Encrypt s=2 id=%d rng=1 m=%s" % (ident, hx(rng.choice(ms))), "Product s=3 a=1 b=2", "Decrypt s=3",
                                   "Power s=3 a=3 x=%s" % hx(rng.choice(ms)), "Decrypt s=3"]
                    for c in rng.sample(range(1, n), min(n - 1, 20 if ctx.quick else 100)):
                        ls.append("Raw id=%d c=%s" % (ident, hx(c)))
        runs.append(Run(exe, ls, "Joye-Libert tiny keys %d" % part, "TraceJl", "TraceJl.cfg", probe=probe))
    return runs


def probe(evs):
    return [(i, "m") for i, e in enumerate(evs) if e["e"] == "Decrypt" and e["m"]]
