"""Builds of the AES modules."""
A = "BlockCiphers/AES/"
CTR = {  # label: (directory, variant, rounds)
    "AES/plain": (A + "AES/AES_CTR", "plain", 10), "AES/rounds6": (A + "AES/AES_CTR", "rounds6", 6),
    "AES_x86/plain": (A + "AES_x86/AES_CTR", "plain", 10), "AES_x86/x86": (A + "AES_x86/AES_CTR", "x86", 10),
    "AES_ARM/plain": (A + "AES_ARM/AES_CTR", "plain", 10), "AES_ARM/arm": (A + "AES_ARM/AES_CTR", "arm", 10)}
CFB = {
    "AES/plain": (A + "AES/AES_CFB", "plain", 10), "AES/rounds6": (A + "AES/AES_CFB", "rounds6", 6),
    "AES_x86/plain": (A + "AES_x86/AES_CFB_Carry-Over", "plain", 10), "AES_x86/x86": (A + "AES_x86/AES_CFB_Carry-Over", "x86", 10),
    "AES_ARM/plain": (A + "AES_ARM/AES_CFB_Carry-Over", "plain", 10), "AES_ARM/arm": (A + "AES_ARM/AES_CFB_Carry-Over", "arm", 10)}
SPECIAL16 = [bytes(16), b"\xff" * 16, bytes(range(16)), b"\x80" + bytes(15), bytes(15) + b"\x01"]


def key16(rng):
    return rng.choice(SPECIAL16) if rng.random() < 0.25 else rng.randbytes(16)


def plain(rng, n):
    r = rng.random()
    return bytes(n) if r < 0.15 else b"\xff" * n if r < 0.25 else rng.randbytes(n)
