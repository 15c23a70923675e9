from vlib import Run, h
from .jl import build_lhe, hx, message


class Prog:
    """concrete programme: fresh names, boundary-heavy values"""

    def __init__(self, rng, k, key, aliased=0.2):
        self.rng, self.k, self.key, self.ls, self.aliased = rng, k, key, [], aliased
        self.twos = {}       # slot -> how many factors of two the values in it have at least

    def lasting(self, n, a, x):
        """a result of differences with itself and multiples of powers of two is soon zero, and zero whatever the operations
        do: such a slot is given another value, mostly"""
        t, k = self.twos, self.k
        v = [t.get(y, 0) for y in a[1:]]
        if n == "Encrypt":
            t[a[0]] = 0
        elif n in ("CMulL", "CMulA"):
            t[a[0]] = v[0] + (k if x == 0 else (x & -x).bit_length() - 1)
        elif n in ("Mult", "Mult3"):
            t[a[0]] = sum(v)
        elif n in ("AddL", "AddA", "SubL", "SubA"):
            t[a[0]] = min(v) if a[1] != a[2] else v[0] + 1 if n[0] == "A" else k
        else:
            return
        if t[a[0]] > 2 and self.rng.random() < 0.85:
            if n in ("AddL", "SubL", "CMulL"):
                self.encrypt(a[0])
            else:
                self.encrypt(81)
                self.encrypt(82)
                self.ls.append("Mult s=%d s1=81 s2=82" % a[0])
            t[a[0]] = 0

    def encrypt(self, s):
        self.ls.append("Encrypt s=%d id=%d h=%d m=%s label=%s" % (s, self.key, self.rng.choice([1, 1, 1, 2]), self.message(), self.label()))

    def message(self):
        return hx(message(self.rng, self.k))

    def label(self):
        r = self.rng
        return hx(r.choice([0, 1, 2, 255, 256, 65535, 65536, 2 ** 24, message(r, self.k), r.randrange(1 << self.k)]))

    def op(self, o):
        n, a = o[0], o[1:]
        r = self.rng
        x = 0
        if n == "Encrypt":
            self.encrypt(a[0])
        elif n == "DecL":
            self.ls.append("DecL s=%d" % a[0])
        elif n == "DecA":
            self.ls.append("DecA s=%d%s" % (a[0], "" if r.random() < 0.8 else " b=" + self.message()))
        elif n in ("CMulL", "CMulA"):
            x = message(r, self.k)
            self.ls.append("%s s=%d s1=%d x=%s" % (n, a[0], a[1], hx(x)))
        elif n in ("AddL", "SubL", "AddA", "SubA", "Mult"):
            self.ls.append("%s s=%d s1=%d s2=%d" % (n, a[0], a[1], a[2]))
        elif n == "Mult3":
            for slot, (x, y) in ((91, (a[1], a[2])), (92, (a[1], a[3])), (93, (a[2], a[3]))):
                self.ls.append("EncMask s=%d s1=%d s2=%d alias=%d" % (slot, x, y, r.random() < 0.5))
            self.ls.append("Mult3 s=%d s1=%d s2=%d s3=%d h12=91 h13=92 h23=93" % (a[0], a[1], a[2], a[3]))
        if n not in ("DecL", "DecA", "Encrypt", "Forget") and r.random() < 0.3:
            self.ls.append(("DecL" if n in ("AddL", "SubL", "CMulL") else "DecA") + " s=%d" % a[0])
        self.lasting(n, a, x)


def check(ctx):
    ctx.design("LheModel")
    if not ctx.quick:
        ctx.design("LheModel", "LheModelDeep.cfg")
    rng = ctx.rng
    exes = build_lhe(ctx)
    es = ctx.edges("SchedLhe")
    walks = ctx.tours(es, ["none"] * 3, maxlen=250)
    keys = [(32, 128), (32, 192), (64, 192), (96, 256), (128, 320)] if ctx.quick else \
        [(32, 128), (32, 160), (32, 256), (64, 192), (64, 256), (96, 256), (128, 320), (160, 384), (256, 640), (32, 1024), (64, 512)]
    runs = []
    for name, e in exes.items():
        ws = list(walks)
        rng.shuffle(ws)
        reps = 3 if ctx.quick else 8
        for rep in range(reps):
            for i, w in enumerate(ws):
                k, n = keys[(i + rep) % len(keys)]
                head = ["Seed seed=%d" % rng.randrange(1 << 30), "KeyGen id=1 k=%d size=%d" % (k, n)]
                for m in (1, 2):
                    head.append("MaskInit h=%d key=%s iv=%s" % (m, h(rng.randbytes(16)), h(rng.randbytes(16))))
                head.append("UserKey id=1")
                p = Prog(rng, k, 1)
                for o in w:
                    p.op(o)
                runs.append(Run(e, head + p.ls, "%s programme %d.%d k=%d" % (name, rep, i, k), "TraceLhe", "TraceLhe.cfg",
                                poison=(0xA5, 0, 0xFF)[i % 3], probe=probe))
        # many encryptions under one mask: positions of the key stream, reloading it
        ls = ["KeyGen id=1 k=32 size=96", "KeyGen id=2 k=64 size=160"]
        for m in (1, 2):
            ls.append("MaskInit h=%d key=%s iv=%s" % (m, h(rng.randbytes(16)), h(bytes(16))))
        for i in range(150 if ctx.quick else 1500):
            p = Prog(rng, (32, 64)[i % 2], 1 + i % 2)
            p.op(["Encrypt", 1 + i % 5])
            ls += p.ls
            if rng.random() < 0.3:
                ls.append("DecL s=%d" % (1 + i % 5))
            if rng.random() < 0.02:
                ls.append("MaskInit h=%d key=%s iv=%s" % (rng.choice([1, 2]), h(rng.randbytes(16)), h(rng.randbytes(16))))
        runs.append(Run(e, ls, "%s masks" % name, "TraceLhe", "TraceLhe.cfg", poison=0x5A, probe=probe))
    ctx.conform_all(runs)
    return ["programmes take every operation with every choice of operand and result among three slots; values are sampled",
            "message sizes are multiples of 32 bits, as the mask conversion requires"]


def probe(evs):
    return [(i, f) for i, e in enumerate(evs) for f in ("m", "a", "c") if e["e"] not in ("KeyGen", "UserKey") and e.get(f) and not (e["e"] == "Encrypt" and f == "m")]
