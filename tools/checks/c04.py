from . import c01, c02, c05, c06
from .aes import CTR, CFB
from .aegis import AEGIS
from . import longs
from .joint import Part, joint_all
from vlib import h


def full(builds):
    return {k: v for k, v in builds.items() if len(v) < 3 or v[2] == 10}


def long_packets(ctx, ctr, cfb, jobs):
    """one schedule of long packets for all builds; those that are not emulated go on to larger sizes"""
    rng = ctx.rng
    k16 = lambda: h(rng.randbytes(16))
    for alg, drv, table in (("ctr", "drv_aes_ctr", ctr), ("cfb", "drv_aes_cfb", cfb), ("aegis", "drv_aegis", AEGIS)):
        exes = ctx.build_all({k: (drv, v[0], v[1], longs.FLAGS) for k, v in table.items()})
        for label, keep, ns in (("all builds", lambda v: True, longs.sizes(ctx, slow=True)),
                                ("native builds", lambda v: v != "arm", [n for n in longs.sizes(ctx) if n > 2 * longs.M])):
            if label[0] == "n" and alg == "aegis":
                ns.append(longs.odd(rng, 2 ** 29))
            ls = {"ctr": ["LoadKey s=1 key=%s" % k16(), "LoadIV s=1 iv=%s" % h(rng.randbytes(12))],
                  "cfb": ["Initialize s=1 key=%s iv=%s" % (k16(), k16())], "aegis": ["LoadKey s=1 key=%s" % k16()]}[alg]
            for n in ns:
                sd = longs.seed(rng)
                if alg == "ctr":
                    ls += ["ProcessLong s=1 seed=%d n=%d" % (sd, n), "Process s=1 in=%s" % h(rng.randbytes(20))]
                elif alg == "cfb":
                    ls += ["%sLong s=1 seed=%d n=%d" % (op, sd, n) for op in ("Encrypt", "Decrypt")] + ["Encrypt s=1 in=%s" % h(rng.randbytes(20))]
                else:
                    big = n >= 2 ** 29
                    for a, m in ((n, rng.randrange(40)),) + (() if big and ctx.quick else ((rng.randrange(40), n),)):
                        ls.append("EncryptLong s=1 iv=%s adseed=%d adn=%d seed=%d n=%d open=%s" % (k16(), longs.seed(rng), a, sd, m, "ok" if big else "ok,tag%d,ad%d" % (rng.randrange(16), rng.randrange(n))))
            names = [k for k, v in table.items() if keep(v[1])]
            parts = [Part(exes[k], ls, what=k, poison=(0xA5, 0, 0xFF)[i % 3]) for i, k in enumerate(names)]
            jobs.insert(0, ("%s long packets, %s" % (alg, label), "JointBuilds.cfg", parts))


def check(ctx):
    ctx.design("IsolationModel")
    ctr, cfb = full(CTR), full(CFB)
    ex = ctx.build_all({**{("ctr", k): ("drv_aes_ctr", v[0], v[1]) for k, v in ctr.items()},
                        **{("cfb", k): ("drv_aes_cfb", v[0], v[1]) for k, v in cfb.items()},
                        **{("aegis", k): ("drv_aegis", v[0], v[1]) for k, v in AEGIS.items()}})
    jobs = []

    def add(alg, label, lines):
        parts = [Part(e, lines, what=k) for (a, k), e in ex.items() if a == alg]
        for i, p in enumerate(parts):
            p.poison, p.align = (0xA5, 0, 0xFF)[i % 3], i % 4
        jobs.append(("%s %s" % (alg, label), "JointBuilds.cfg", parts))
    for i, ls in enumerate(c01.schedules(ctx)):
        add("ctr", "schedule %d" % i, ls)
    for i, ls in enumerate(c02.schedules(ctx)):
        add("cfb", "schedule %d" % i, ls)
    for i, ls in enumerate(c05.schedules(ctx)):
        add("aegis", "schedule %d" % i, ls)
    for i, ls in enumerate(c06.merge(c06.sweeps(ctx), 1 if ctx.quick else 4)):
        add("aegis", "tampering %d" % i, ls)
    long_packets(ctx, ctr, cfb, jobs)
    joint_all(ctx, jobs, probe_fields=("out", "tag", "res", "m", "c", "sum"))
    return ["keys, nonces and data are sampled; ARM builds run under qemu user emulation"]
