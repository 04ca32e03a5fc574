from ..core import expect, brief, diff, shape_of
from ..decode import decode_case, reply_strategy
from ..replies import R, be, bits

ID = "P08"
QUICK, THOROUGH = 5000, 120000
NAMES = ["vpd_supported", "vpd_serial", "vpd_block_limits", "vpd_lbp", "vpd_veritas", "vpd_unknown"]
RULE = ("A case is a well-formed Supported Pages, Unit Serial Number, Block Limits, Logical Block Provisioning, Veritas or unrecognised VPD page with "
        "generated contents, fetched with the library's own command; every field is compared with a reference decoder. Non-trivial when the page holds a "
        "non-zero payload.")


def strategy():
    return reply_strategy(NAMES)


def fixed():
    for b in range(60 * 8):
        body = bytearray(60)
        body[b // 8] = 1 << b % 8
        yield dict(name="vpd_block_limits", f=dict(p=0, body=bytes(body).hex()))
        if b < 32:
            yield dict(name="vpd_lbp", f=dict(p=0, body=bytes(body[:4]).hex(), group=None))
            yield dict(name="vpd_lbp", f=dict(p=0, body=bytes(body[:4]).hex(), group={"ident": "5111111222222222"}))
            yield dict(name="vpd_veritas", f=dict(p=0, body=bytes(body[:2]).hex()))
    for p in range(256):
        yield dict(name="vpd_serial", f=dict(p=p, serial=b"A1".hex()))
    for n in range(249):
        yield dict(name="vpd_supported", f=dict(p=0, pages=bytes((i * 3 + 128) & 0xFF for i in range(n)).hex()))
        yield dict(name="vpd_serial", f=dict(p=0, serial=bytes(0x21 + (i * 7) % 94 for i in range(n)).hex()))
    for n in (0, 1, 2, 127, 128, 255, 256, 257, 511, 512, 2043, 2044):
        yield dict(name="vpd_unknown", f=dict(p=0, code=0x86, body=bytes((i * 3 + 128) & 0xFF for i in range(n)).hex()))


def judge(c, run):
    decode_case(run, c["name"], c["f"])
    return [c["name"]], any(bytes.fromhex(c["f"].get("body", c["f"].get("serial", c["f"].get("pages", "")))))
