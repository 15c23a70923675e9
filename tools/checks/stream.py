"""Schedules shared by the stream cipher checks."""
from vlib import sched_stream, interleave, h
from vlib import Run
from .aes import plain
from . import longs

LENS_Q = [0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 15, 16, 17, 19, 20, 31, 32, 33, 48, 63, 64, 65]
LENS_T = list(range(0, 36)) + [47, 48, 49, 60, 61, 62, 63, 64, 65, 66, 67, 68, 127, 128, 129]


class Proto:
    """how the abstract calls of the schedule machine become calls of a driver"""

    def __init__(self, key, iv, combined, iv_needed, key_clears_iv, extra=None):
        self.key, self.iv, self.combined, self.iv_needed, self.key_clears_iv, self.extra = key, iv, combined, iv_needed, key_clears_iv, extra

    def load(self, s, k, v=None):
        return ["Init s=%d key=%s iv=%s" % (s, h(k), h(v))] if self.combined else ["LoadKey s=%d key=%s" % (s, h(k))]

    def concretise(self, rng, walk, s):
        keys = {i: self.key(rng) for i in (1, 2)}
        ivs = {i: self.iv(rng) for i in (1, 2)}
        out = []
        for op in walk:
            a = op["arg"]
            if op["name"] == "LoadKey":
                out += self.load(s, keys[a], ivs[a])
            elif op["name"] == "LoadIV":
                out.append("LoadIV s=%d iv=%s" % (s, h(ivs[a])))
            else:
                out.append("Process s=%d in=%s" % (s, h(plain(rng, a))))
                if self.extra and rng.random() < 0.08:
                    out.append(self.extra(rng, s))
        return out

    def fresh(self, rng, s):
        out = self.load(s, self.key(rng), self.iv(rng))
        if self.iv_needed and not self.combined:
            out.append("LoadIV s=%d iv=%s" % (s, h(self.iv(rng))))
        return out


def schedules(ctx, name, proto, lens, big, nsingle=130):
    """protocol tours; every length on its own; long packets; interleaved sessions"""
    rng = ctx.rng
    walks = sched_stream(ctx, name, lens, nkeys=2, nivs=0 if proto.combined else 2, iv_needed=proto.iv_needed and not proto.combined,
                         key_clears_iv=proto.key_clears_iv, maxlen=10 ** 6 if ctx.quick else 3000)
    res = [proto.concretise(rng, w, 1) for w in walks]
    one = proto.fresh(rng, 1)
    for n in list(range(nsingle)) + [rng.randrange(nsingle, 3000) for _ in range(6 if ctx.quick else 60)] + big:
        one.append("Process s=1 in=%s" % h(plain(rng, n)))
        if rng.random() < 0.02:
            one += proto.fresh(rng, 1)
    res.append(one)
    res.append(interleave(rng, [proto.concretise(rng, rng.choice(walks)[:120 if ctx.quick else 400], i + 3) for i in range(3)]))
    return res


def longer(ctx, driver, mdir, proto, label, module, variants={"plain": None}):
    """long packets, short ones in between; one of more than 2^31 and in the thorough tier one of more than 2^32 bytes"""
    rng = ctx.rng
    if not ctx.fast:
        return []
    runs = []
    exes = ctx.build_all({v: (driver, mdir, v, longs.FLAGS) for v in variants})
    for v, cfg in variants.items():
        def long_run(ns, what):
            ls = proto.fresh(rng, 1)
            for n in ns:
                ls += ["ProcessLong s=1 seed=%d n=%d" % (longs.seed(rng), n), "Process s=1 in=%s" % h(plain(rng, rng.randrange(1, 70)))]
            runs.append(Run(exes[v], ls, "%s %s %s packets" % (label, v, what), module, cfg or module + ".cfg"))
        long_run(longs.sizes(ctx), "long")
        if not ctx.quick or v == "plain":
            long_run([longs.odd(rng, 2 ** 31)], "2 GiB")
        if not ctx.quick:
            long_run([longs.odd(rng, 2 ** 32)], "4 GiB")
    return runs
