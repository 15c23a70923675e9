from vlib import Run, h
from . import longs

D = "Encoders/Hex"


def check(ctx):
    ctx.design("HexModel", "Empty.cfg", min_states=0)
    rng = ctx.rng
    exe = ctx.build("drv_hex", D)
    runs = []

    def add(ls, label, **kw):
        runs.append(Run(exe, ls, "hex " + label, "TraceHex", "TraceHex.cfg", **kw))
    allb = bytes(range(256))
    ls = ["Encode in=%02x" % b for b in range(256)] + ["Decode text=%02X" % b for b in range(256)]
    ls += ["Encode in=%s" % h(allb), "Decode text=%s" % h(allb).upper(), "Encode", "Decode text="]
    add(ls, "bytes")
    # every byte after every other
    ls = []
    for a in range(0, 256, 4 if ctx.quick else 1):
        s = b"".join(bytes([(a + d) % 256, (b + a * 7) % 256]) for b in range(256) for d in (0, 1))
        ls += ["Encode in=%s" % h(s), "Decode text=%s" % h(s).upper()]
    add(ls, "pairs", align=1)
    for k, (p, al) in enumerate([(0xA5, 0), (0x00, 1), (0xFF, 2), (0x41, 3)]):
        ls = []
        for n in range(0, 200 if ctx.quick else 700):
            s = rng.choice([rng.randbytes(n), rng.randbytes(n), bytes(n), b"\xff" * n])
            ls += ["Encode in=%s" % h(s), "Decode text=%s" % h(rng.randbytes(n)).upper()]
        ls += ["Encode in=%s" % h(rng.randbytes(n)) for n in (1000, 4096, 10000)] + ["Decode text=%s" % h(rng.randbytes(n)).upper() for n in (1000, 5000)]
        add(ls, "lengths %d" % k, poison=p, align=al)
    if ctx.fast:
        exe2 = ctx.build("drv_hex", D, **longs.FLAGS)
        ls = ["%sLong seed=%d n=%d" % (op, longs.seed(rng), n) for n in longs.sizes(ctx) for op in ("Encode", "Decode")]
        runs.append(Run(exe2, ls, "hex long strings", "TraceHex", "TraceHex.cfg"))
        if not ctx.quick:       # 2 GiB of text
            runs.append(Run(exe2, ["EncodeLong seed=%d n=%d" % (longs.seed(rng), 2 ** 30 + rng.randrange(99))], "hex 2 GiB of text", "TraceHex", "TraceHex.cfg"))
            runs.append(Run(exe2, ["DecodeLong seed=%d n=%d" % (longs.seed(rng), 2 ** 30 - rng.randrange(2, 99))], "hex nearly 2 GiB of text", "TraceHex", "TraceHex.cfg"))
    ctx.conform_all(runs)
    return ["every byte value in every digit position; longer strings are sampled at every length up to 200 (quick) or 700 (thorough)"]
