from ..core import expect, brief, diff, shape_of
from ..decode import decode_case, reply_strategy
from ..replies import R, be, bits

ID = "P10"
QUICK, THOROUGH = 3000, 60000
RULE = ("A case is a 572-byte ATA Information page: random registers, command code and reserved bytes, ASCII SAT strings and IDENTIFY strings (stored "
        "byte-swapped); every field is compared with a reference decoder. Non-trivial when some register is non-zero.")


def strategy():
    return reply_strategy(["vpd_ata"])


BASE = dict(p=0, text=(b"ATA     " + b"SAT PRODUCT     " + b"1.0 ").hex(), serial=b"SERIAL0123456789ABCD".hex(), fw=b"FW012345".hex(),
            model=b"MODEL NUMBER OF THE DISK DEVICE 12345678".hex())


def fixed():
    for b in range(32 * 8, 60 * 8):
        body = bytearray(572)
        body[b // 8] = 1 << b % 8
        yield dict(name="vpd_ata", f=dict(BASE, body=bytes(body).hex()))
    for v in range(256):
        yield dict(name="vpd_ata", f=dict(BASE, body=bytes([v] * 572).hex(), p=v))


def judge(c, run):
    got = decode_case(run, c["name"], c["f"])
    return ["high-registers" if any(x >= 0x80 for x in got[36:57]) else "low-registers"], any(got[36:57])
