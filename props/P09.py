from lib import hufc
from lib.cmds import *

ID = "P09"
LEVEL = "exploration"
RULE = (
    "random byte strings (noise, runs, few symbols, stitch-like walks) compressed by an independent compressor with a random parse into literals and copies, "
    "random block split, random canonical code (1 to 16 bits, zero-bit single codes), random spelling of the code lengths; oracle: expand() returns exactly "
    "the bytes, with or without the length given, with or without end mark; compress() then expand() is the identity and the bytes are a legal stored block for "
    "an independent decoder; non-trivial = at least 8 bytes and a code of 2 or more bits; distinct by packed bytes"
)
ASSUMPTIONS = ["legal streams: complete codes, distances within what was already expanded"]
MIN_EVENTS = {"expanded_bytes": 500000, "copies": 5000, "blocks": 5000}


def cases(tier):
    return 7000 if tier == "quick" else 60000


def payload(rng):
    n = rng.choice((0, 1, 2, 3, 5, 12, 40, 150, 700, rng.randint(0, 3000)))
    kind = rng.choice(("noise", "few", "runs", "walk", "period", "one", "text"))
    if kind == "noise":
        return bytes(rng.randrange(256) for _ in range(n))
    if kind == "few":
        a = [rng.randrange(256) for _ in range(rng.choice((1, 2, 3, 7)))]
        return bytes(rng.choice(a) for _ in range(n))
    if kind == "runs":
        out = bytearray()
        while len(out) < n:
            out += bytes([rng.randrange(256)]) * rng.choice((1, 2, 3, 4, 9, 60, 255, 256, 257, 258, 259, 260, 600))
        return bytes(out[:n])
    if kind == "walk":
        return bytes(rng.randint(-12, 12) & 0xFF for _ in range(n))
    if kind == "period":
        a = bytes(rng.randrange(256) for _ in range(rng.choice((1, 2, 3, 5, 17, 100, 300))))
        return (a * (n // len(a) + 1))[:n]
    if kind == "one":
        return bytes([rng.randrange(256)]) * n
    return bytes(rng.choice(b"\x80\x80\x80\x80\x81\x84\x88") for _ in range(n)) + b"\x90"


def unstore(b):
    """decoder for what compress() writes: blocks of 256 codes of 8 bits"""
    out = b""
    while b:
        n = b[0] * 256 + b[1]  # the bit stream is most significant bit first
        if b[2:6] != b"\x02\xa0\x01\xfe":
            return None
        out += b[6:6 + n]
        if len(b) < 6 + n:
            return None
        b = b[6 + n:]
    return out


def case(i, rng, mon):
    from pyembroidery import EmbCompress as ec

    data = payload(rng)
    end = rng.random() < 0.5
    z, info = hufc.pack(data, rng, end=end)
    mon.count("copies", info["copies"])
    mon.count("blocks", info["blocks"])
    mon.count("expanded_bytes", len(data))
    ways = [("size", len(data))]
    if end:
        ways += [("none", None), ("larger", len(data) + rng.choice((1, 5, 1000)))]
        if rng.random() < 0.5:
            z += bytes(rng.randrange(256) for _ in range(rng.randint(1, 9)))  # what follows the end mark is not part of it
    for label, size in ways:
        got = ec.expand(bytearray(z), size) if size is not None or rng.random() < 0.5 else ec.expand(bytearray(z))
        mon.check(
            list(got) == list(data), "expand", "expanding a block (%s) gives the bytes it represents" % label,
            lambda: {"info": info, "end": end, "size": size, "expected": list(data)[:80], "got": list(got)[:80],
                     "lengths": (len(data), len(got)), "packed": z.hex()[:400]})
    if len(data) >= 8 and max(info["widths"]) >= 2:
        mon.sig(z)
        mon.sample({"info": info, "bytes": len(data), "packed": len(z)})
    if i % 3 == 0:
        big = data
        if i % 300 == 0:
            big = bytes(rng.randrange(256) for _ in range(rng.choice((65535, 65536, 65537, 70000, 131070, 140000))))
        c = ec.compress(bytearray(big)) if rng.random() < 0.5 or not big else ec.compress(bytes(big))
        mon.check(unstore(bytes(c)) == bytes(big), "stored-form", "compress() writes legal blocks that hold the bytes", lambda: (len(big), bytes(c[:12]).hex()))
        back = ec.expand(bytearray(c), len(big))
        mon.check(list(back) == list(big), "identity", "expand(compress(data), len(data)) is data", lambda: (len(big), len(back)))
        back = ec.expand(bytearray(c))
        mon.check(list(back) == list(big), "identity", "expand(compress(data)) is data", lambda: (len(big), len(back), list(back[:9]), list(big[:9])))
