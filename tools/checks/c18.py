from vlib import Run
from .jl import JL, build_lhe, sizes


def check(ctx):
    ctx.design("JlModel", min_states=1000)
    rng = ctx.rng
    exe = ctx.build("drv_jl", JL, libs=("-lgmp",))
    lhe = build_lhe(ctx)
    sz = sizes(ctx)
    if ctx.quick:
        sz += [(8, 512), (64, 512)]
        # a sweep of sizes for a few message sizes
        sz += [(k, n) for k in (1, 4, 16) for n in range(64, 260, 7)]
    else:
        sz += [(k, n) for k in (1, 2, 3, 5, 8, 12, 16) for n in range(64, 520, 3)]
        sz += [(32, 2048), (64, 2048)]
    rng.shuffle(sz)
    runs = []
    parts = 6 if ctx.quick else 24
    for i in range(parts):
        ls = ["KeyGen id=%d k=%d size=%d" % (j, k, n) for j, (k, n) in enumerate(sz[i::parts])]
        runs.append(Run(exe, ls, "keys %d" % i, "TraceJl", "TraceJl.cfg", probe=probe))
    for name, e in lhe.items():
        ls = ["KeyGen id=%d k=%d size=%d" % (j, k, n) for j, (k, n) in enumerate(sz[:12 if ctx.quick else 100])]
        runs.append(Run(e, ls, name + " keys", "TraceLhe", "TraceLhe.cfg", probe=probe))
    ctx.conform_all(runs)
    return ["key generation uses a fixed generator seed, so there is one key per pair of sizes; the sizes are swept instead",
            "primality is decided by Miller-Rabin to the first fifteen prime bases"]


def probe(evs):
    return [(i, f) for i, e in enumerate(evs) for f in ("n", "p")]
