"""Packets and messages too long to be written into a trace (Words.tla: Pattern, Checksum).

The drivers fill the input with a pattern and record a checksum of the output; the trace module computes the same
checksum from the definition of the algorithm (through the override classes, hence only when those are available).
Sizes lie just above the values at which counters, lengths, loop indices and automatic arrays of common widths overflow:
2^16 bytes, 2^16 blocks of 8, 16 and 64 bytes, 2^20 blocks, the usual stack, 2^24, 2^29 (bit lengths), 2^31, 2^32."""
FLAGS = {"flags": ("-O2", "-fno-strict-aliasing", "-fwrapv")}
K, M = 1 << 10, 1 << 20


def seed(rng):
    return rng.randrange(-2 ** 31, 2 ** 31)


def odd(rng, n, step=1):
    """a size a little above n"""
    return n + step * rng.randrange(1, 400 // step)


def sizes(ctx, step=1, slow=False, giant=()):
    rng = ctx.rng
    if slow:
        ns = [64 * K, 512 * K, M] if ctx.quick else [64 * K, 512 * K, M, 4 * M, 16 * M]
    else:
        ns = [64 * K, 512 * K, M, 4 * M, 16 * M] if ctx.quick else [64 * K, 512 * K, M, 4 * M, 16 * M, 64 * M, 512 * M]
    return [odd(rng, n, step) for n in ns] + [odd(rng, n, step) for n in giant]
