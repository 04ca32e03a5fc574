from ..core import expect, brief, diff, shape_of
from ..decode import decode_case, reply_strategy
from ..replies import R, be, bits

ID = "P11"
QUICK, THOROUGH = 4000, 100000
NAMES = ["rc10", "rc16", "rtpg", "rcop"]
RULE = ("A case is a READ CAPACITY(10/16), REPORT TARGET PORT GROUPS (either format, any number of groups and ports) or RECEIVE COPY OPERATING PARAMETERS "
        "reply; every field, group, port and list entry is compared with a reference decoder. Non-trivial when the reply is not all zero and, for the "
        "list-carrying ones, holds at least one entry.")


def strategy():
    return reply_strategy(NAMES)


def fixed():
    for b in range(32 * 8):
        body = bytearray(32)
        body[b // 8] = 1 << b % 8
        yield dict(name="rc16", f=dict(body=bytes(body).hex()))
        if b < 64:
            yield dict(name="rc10", f=dict(body=bytes(body[:8]).hex()))
    for b in range(44 * 8):
        body = bytearray(44)
        body[b // 8] = 1 << b % 8
        yield dict(name="rcop", f=dict(body=bytes(body).hex(), list="0102ff"))
    for n in range(256):
        yield dict(name="rcop", f=dict(body="00" * 44, list=bytes(range(n)).hex()))
        if n % 16 in (0, 1, 15):
            yield dict(name="rtpg", f=dict(ext=n & 1, head="10000000", groups=[("80ff0102000300", ["00000001"] * n), ("010f0304000500", ["0000ffff"])]))
    for groups, ports in ((64, 255), (65, 255), (128, 128), (300, 100), (200, 255), (2000, 5), (8191, 0), (8192, 0), (8193, 0), (5461, 1)):   # around and beyond 65535 bytes
        for e in (0, 1):
            size = 4 + 4 * e + groups * (8 + 4 * ports)
            yield dict(name="rtpg", f=dict(ext=e, head="10000000", alloc=size + 256, groups=[("8%x0f%04x000200" % (i % 5, i), ["0000%04x" % (j + 1) for j in range(ports)]) for i in range(groups)]))
    for b in range(56):
        g = bytearray(7)
        g[b // 8] = 1 << b % 8
        for e in (0, 1):
            yield dict(name="rtpg", f=dict(ext=e, head="10ff0000", groups=[(bytes(g).hex(), ["00000001", "ffff8000"])] * 2))


def judge(c, run):
    got = decode_case(run, c["name"], c["f"])
    f = c["f"]
    return [c["name"]], any(got) and (c["name"] not in ("rtpg", "rcop") or bool(f.get("groups") or f.get("list")))
