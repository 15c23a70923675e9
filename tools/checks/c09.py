from vlib import Run, h
from .aes import key16, plain
from .stream import Proto, schedules, longer, LENS_Q, LENS_T

D = "StreamCiphers/Rabbit"
# a key whose first counter sums to exactly 2^32 with its constant: C0 = k4 k5 (16-bit halves), A0 = 4d34d34d
CARRY_KEY = bytes(8) + bytes([0xCB, 0xB2, 0xB3, 0x2C]) + bytes(4)


def iv8(rng):
    return rng.choice([bytes(8), b"\xff" * 8]) if rng.random() < 0.2 else rng.randbytes(8)


def key(rng):
    if rng.random() < 0.15:
        k = bytearray(rng.randbytes(16))
        k[8:12] = CARRY_KEY[8:12]
        return bytes(k)
    return key16(rng)


PROTO = Proto(key, iv8, False, False, True, lambda rng, s: "Keystream s=%d" % s)




def check(ctx):
    ctx.design("StreamKat", "Empty.cfg", min_states=0)
    rng = ctx.rng
    exe = ctx.build("drv_rabbit", D)
    runs = []
    for i, ls in enumerate(schedules(ctx, "rabbit", PROTO, LENS_Q if ctx.quick else LENS_T, [4096, 4111])):
        runs.append(Run(exe, ls, "Rabbit schedule %d" % i, "TraceRabbit", "TraceRabbit.cfg"))
    # many keys and IVs, IVs reloaded after packets of varied length (the carry at that moment is 0 or 1)
    ls = []
    for i in range(60 if ctx.quick else 800):
        ls.append("LoadKey s=1 key=%s" % h(CARRY_KEY if i == 0 else key(rng)))
        if rng.random() < 0.5:
            ls.append("Process s=1 in=%s" % h(plain(rng, rng.randrange(0, 60))))
        for _ in range(4):
            v = iv8(rng)
            for _ in range(2):
                ls += ["LoadIV s=1 iv=%s" % h(v), "Process s=1 in=%s" % h(plain(rng, rng.choice([16, 16 * rng.randrange(1, 9)])))]
    runs.append(Run(exe, ls, "Rabbit keys and IVs", "TraceRabbit", "TraceRabbit.cfg"))
    # aim at counter sums of exactly 2^32: C0 = 2^32 - A0 - b before each of the IV iterations is reached through the IV
    ls = exact_sums(rng, 40 if ctx.quick else 400)
    runs.append(Run(exe, ls, "Rabbit exact sums", "TraceRabbit", "TraceRabbit.cfg"))
    runs += longer(ctx, "drv_rabbit", D, PROTO, "Rabbit", "TraceRabbit")
    ctx.conform_all(runs)
    return ["keys, IVs and data are sampled, with keys and IVs chosen so that a counter addition gives exactly 2^32"]


A = [0x4D34D34D, 0xD34D34D3, 0x34D34D34] * 2 + [0x4D34D34D, 0xD34D34D3]
M = 0xFFFFFFFF


def exact_sums(rng, n):
    """IVs for which the addition to counter 0 or 2 in the first iteration is exactly 2^32 with the incoming carry 0 or 1"""
    rot = lambda x, k: ((x << k) | (x >> (32 - k))) & M

    def it(X, C, b):
        C2 = []
        for j in range(8):
            t = C[j] + A[j] + b
            b = t >> 32
            C2.append(t & M)
        G = []
        for j in range(8):
            s = (X[j] + C2[j]) & M
            p = s * s
            G.append((p ^ (p >> 32)) & M)
        X2 = [(G[i] + rot(G[i - 1], 16 if i % 2 == 0 else 8) + (rot(G[i - 2], 16) if i % 2 == 0 else G[i - 2])) & M for i in range(8)]
        return X2, C2, b
    ls = []
    for _ in range(n):
        k = rng.randbytes(16)
        K = [int.from_bytes(k[2 * i:2 * i + 2], "little") for i in range(8)]
        X = [(K[(j + 1) % 8] << 16 | K[j]) if j % 2 == 0 else (K[(j + 5) % 8] << 16 | K[(j + 4) % 8]) for j in range(8)]
        C = [(K[(j + 4) % 8] << 16 | K[(j + 5) % 8]) if j % 2 == 0 else (K[j] << 16 | K[(j + 1) % 8]) for j in range(8)]
        b = 0
        for _ in range(4):
            X, C, b = it(X, C, b)
        C = [C[j] ^ X[(j + 4) % 8] for j in range(8)]
        ls.append("LoadKey s=1 key=%s" % h(k))
        # counter 0 gets C0 ^ iv[31..0] + A0 + b, counter 2 gets C2 ^ iv[63..32] + A2 + (0 or 1)
        w0 = ((1 << 32) - A[0] - b) & M ^ C[0]
        for c in (0, 1):
            w1 = ((1 << 32) - A[2] - c) & M ^ C[2]
            ls += ["LoadIV s=1 iv=%s" % h(w0.to_bytes(4, "little") + w1.to_bytes(4, "little")), "Process s=1 in=%s" % h(bytes(33))]
    return ls
