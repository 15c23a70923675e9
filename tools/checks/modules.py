"""Every stateful module as a source of epochs: call sequences that begin with a complete initialisation.

In a line of an epoch, {s} is the session it is run on and {p} a name for the packets it makes.  The random choices of an
epoch are made when it is drawn, so that the same calls can be repeated on other objects, in other orders and other builds."""
from vlib import h
from .aes import CTR, CFB, key16, plain
from .aegis import AEGIS
from . import c07, c09, c10, c11, c15

LENS = [0, 1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 17, 19, 31, 32, 33, 48, 63, 64, 65, 100]


FORCED = None        # a size to use wherever one is drawn


def size(rng):
    if FORCED is not None:
        return FORCED
    return rng.choice(LENS) if rng.random() < 0.9 else rng.randrange(600)


def proc(rng, n=None):
    return "Process s={s} in=%s" % h(plain(rng, size(rng) if n is None else n))


def ctr(rng):
    ls = ["LoadKey s={s} key=%s" % h(key16(rng)), "LoadIV s={s} iv=%s" % h(rng.randbytes(12))]
    for _ in range(rng.randrange(1, 9)):
        ls.append(proc(rng) if rng.random() < 0.85 else "LoadIV s={s} iv=%s" % h(rng.randbytes(12)))
    return ls


def cfb(rng):
    return ["Initialize s={s} key=%s iv=%s" % (h(key16(rng)), h(key16(rng)))] + \
        [rng.choice(["Encrypt", "Encrypt", "Decrypt"]) + " s={s} in=%s" % h(plain(rng, size(rng))) for _ in range(rng.randrange(1, 9))]


def aegis(rng):
    ls = ["LoadKey s={s} key=%s" % h(key16(rng))]
    for _ in range(rng.randrange(1, 5)):
        ls.append("Encrypt s={s} p={p} iv=%s ad=%s in=%s" % (h(key16(rng)), h(plain(rng, size(rng))), h(plain(rng, size(rng)))))
        ls.append("Decrypt s={s} p={p}" + rng.choice(["", "", " ftag=%d" % rng.randrange(128)]))
    return ls


def stream(proto, lens=None, more=None):
    def f(rng):
        ls = [x.replace("s=0", "s={s}", 1) for x in proto.fresh(rng, 0)]
        for _ in range(rng.randrange(1, 8)):
            r = rng.random()
            if r < 0.15 and not proto.combined:
                ls.append("LoadIV s={s} iv=%s" % h(proto.iv(rng)))
            elif r < 0.25 and proto.extra:
                ls.append(proto.extra(rng, 0).replace("s=0", "s={s}", 1))
            else:
                ls.append(proc(rng))
        return ls
    return f


def serpent(rng):
    return ["LoadKey s={s} key=%s" % h(rng.randbytes(min(32, max(1, FORCED)) if FORCED is not None else rng.choice([1, 15, 16, 17, 24, 31, 32, rng.randrange(1, 33)])))] + \
        ["Process s={s} in=%s" % h(key16(rng)) for _ in range(rng.randrange(1, 6))]


def sha(rng):
    return ["Hash in=%s" % h(plain(rng, size(rng))) for _ in range(4)]


def hmac(rng):
    ls = ["LoadKey s={s} key=%s" % h(plain(rng, rng.choice([0, 1, 16, 32, 63, 64, 65, 100, 131]) if FORCED is None else FORCED))]
    for _ in range(rng.randrange(1, 5)):
        m, t = h(plain(rng, size(rng))), rng.choice([32, 16, 1, rng.randrange(1, 33)])
        ls.append("Tag s={s} in=%s len=%d" % (m, t))
        ls.append("Validate s={s} in=%s%s" % (m, rng.choice(["", " flip=%d" % rng.randrange(8 * t)])))
    return ls


def md5(rng):
    if rng.random() < 0.2:
        return ["Whole s={s} in=%s" % h(plain(rng, size(rng)))]
    return ["Start s={s}"] + ["Update s={s} in=%s" % h(plain(rng, size(rng))) for _ in range(rng.randrange(0, 7))] + ["Final s={s}"]


def des(rng):
    ls = ["Load%s s={s} key=%s" % (rng.choice(["Enc", "Enc", "Dec"]), h(c15.key8(rng)))]
    for _ in range(rng.randrange(1, 6)):
        b = h(c15.blocks(rng, rng.choice([0, 1, 2, 3, 5]) if FORCED is None else FORCED % 9))
        ls.append("Process s={s} in=%s" % b if rng.random() < 0.7 or ls[0][4:7] == "Dec" else "Ctr s={s} nonce=%s in=%s" % (h(rng.randbytes(12)), b))
    return ls


def hexes(rng):
    n = size(rng)
    return ["Encode in=%s" % h(plain(rng, n)), "Decode text=%s" % h(plain(rng, n)).upper()]


def modules():
    """name -> (driver, directory, variant, build options, epoch source)"""
    m = {}
    for k, v in CTR.items():
        m["CTR " + k] = ("drv_aes_ctr", v[0], v[1], {}, ctr)
    for k, v in CFB.items():
        m["CFB " + k] = ("drv_aes_cfb", v[0], v[1], {}, cfb)
    for k, v in AEGIS.items():
        m[k] = ("drv_aegis", v[0], v[1], {}, aegis)
    for v, r in c07.VARIANTS.items():
        m["ChaCha%d" % r] = ("drv_chacha", c07.D, v, {}, stream(c07.PROTO))
    from . import c08
    m["HC-128"] = ("drv_hc128", c08.D, "plain", {}, stream(c08.PROTO))
    m["Rabbit"] = ("drv_rabbit", c09.D, "plain", {}, stream(c09.PROTO))
    m["Sosemanuk"] = ("drv_sosemanuk", c10.D, "plain", {}, stream(c10.PROTO))
    for k, d in c11.DIRS.items():
        m["Serpent " + k] = ("drv_serpent", d, "plain", {}, serpent)
    m["SHA-256"] = ("drv_sha256", "Hash/SHA/SHA-2/SHA-256", "plain", {}, sha)
    m["HMAC"] = ("drv_hmac", "Authentication/HMAC-SHA-256", "plain", {}, hmac)
    m["HMAC/sha-256"] = ("drv_sha256", "Authentication/HMAC-SHA-256", "plain", {"skip": ("hmac.cpp",)}, sha)
    m["MD5"] = ("drv_md5", "Legacy/MD5", "plain", {}, md5)
    m["DES"] = ("drv_des", "Legacy/DES", "plain", {}, des)
    m["Hex"] = ("drv_hex", "Encoders/Hex", "plain", {}, hexes)
    return m


def build_modules(ctx, only=None):
    ms = {k: v for k, v in modules().items() if only is None or only(k)}
    ex = ctx.build_all({k: v[:4] for k, v in ms.items()})
    return {k: (ex[k], v[4], v[2]) for k, v in ms.items()}


def place(epoch, s, p=None):
    return [x.format(s=s, p=s if p is None else p) for x in epoch]
