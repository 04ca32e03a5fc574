from ..core import expect, brief, diff, shape_of
from ..decode import decode_case, reply_strategy
from ..replies import R, be, bits

ID = "P07"
QUICK, THOROUGH = 5000, 120000
RULE = ("A case is a standard INQUIRY reply of 36..260 bytes with generated contents, a declared additional length that may be more or less than what "
        "exists, and an allocation length that may cut it; every field is compared with a reference decoder. Non-trivial when the reply or the declared "
        "length goes beyond the 36 mandatory bytes.")


def strategy():
    return reply_strategy(["std_inquiry"])


def fixed():
    blank = dict(text=(b"VENDOR  " + b"PRODUCT         " + b"1.00").hex())
    for n in range(36, 120):
        for add in sorted({n - 5, 31, 91, max(0, n - 6), n - 4, 255}):
            for alloc in (None, n, 36, 96, 255):
                yield dict(name="std_inquiry", f=dict(blank, body=bytes((i * 7 + n) & 0xFF for i in range(n)).hex(), additional=add, alloc=alloc))
    for byte in range(36):
        for b in range(8):
            for inv in (0, 0xFF):
                body = bytearray([inv] * 36)
                body[byte] ^= 1 << b
                yield dict(name="std_inquiry", f=dict(blank, body=bytes(body).hex(), additional=31, alloc=None))
    for b in range(8 * 70):
        body = bytearray(110)
        body[36 + b // 8] = 1 << b % 8
        yield dict(name="std_inquiry", f=dict(blank, body=bytes(body).hex(), additional=105, alloc=255))


def judge(c, run):
    got = decode_case(run, c["name"], c["f"])
    n = c["f"]["additional"] + 5
    label = "cut" if len(got) < n else "more-than-declared" if len(got) > n else "exact"
    return [label, "extended" if min(n, len(got)) > 36 else "minimal"], len(got) > 36 or n > 36
