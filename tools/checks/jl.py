"""Schedules for Joye-Libert and labelled homomorphic encryption."""
import os
from vlib import Run, ToolError

JL = "AsymmetricCryptography/Joye_libert"
LHE = "AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE"
MU = "AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE"
HC = "StreamCiphers/HC-128"


def build_lhe(ctx, flags=()):
    """drivers of both copies; the multi-user one names its neighbours by other paths"""
    import vlib
    exes = {"LabeledHE": ctx.build("drv_lhe", [LHE, JL, HC], flags=flags, libs=("-lgmp",))}
    d = os.path.join(ctx.work, "mu")
    os.makedirs(os.path.join(d, "x"), exist_ok=True)
    for name, target in (("HC-128", HC), ("joye_libert", JL)):
        if not os.path.exists(os.path.join(d, name)):
            os.symlink(os.path.join(vlib.REPO, target), os.path.join(d, name))
    try:
        exes["muLabeledHE"] = ctx.build("drv_lhe", [MU, JL, HC], flags=("-DMU", "-I" + os.path.join(d, "x")) + tuple(flags), libs=("-lgmp",))
    except ToolError as e:
        ctx.note("muLabeledHE, which the repository's own build leaves out, was not checked: " + str(e)[-200:])
    return exes


def hx(n):
    return "%x" % n


def message(rng, k):
    """boundary-heavy message below 2^k"""
    top = (1 << k) - 1
    kind = rng.randrange(9)
    if kind == 0:
        return 0
    if kind == 1:
        return top
    if kind == 2:
        return 1 << rng.randrange(k)
    if kind == 3:
        return top ^ (1 << rng.randrange(k))
    if kind == 4:
        return min(top, rng.randrange(4))
    if kind == 5:
        return max(0, top - rng.randrange(4))
    if kind == 6:
        return 1 << (k - 1)
    return rng.randrange(top + 1)


def sizes(ctx):
    """(k, key size) pairs"""
    ks = [1, 2, 3, 8, 16, 31, 32, 33, 64, 65, 96, 130] if ctx.quick else [1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 31, 32, 33, 48, 63, 64, 65, 96, 128, 200]
    out = []
    for k in ks:
        opts = [n for n in ((64, 96, 128, 160, 192, 256, 320) if ctx.quick else (64, 65, 96, 127, 128, 160, 192, 200, 256, 320, 384, 512, 768, 1024)) if k + 16 <= n // 2]
        out += [(k, n) for n in (ctx.rng.sample(opts, min(2, len(opts))) if ctx.quick else opts)]
        if not opts:
            out.append((k, 2 * k + 64))
    return out
