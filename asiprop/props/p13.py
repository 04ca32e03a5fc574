from ..core import expect, brief, diff, shape_of
from ..decode import decode_case, reply_strategy
from ..replies import R, be, bits

ID = "P13"
QUICK, THOROUGH = 5000, 120000
NAMES = ["pr_keys", "pr_resv", "pr_caps", "pr_full"]
RULE = ("A case is a READ KEYS, READ RESERVATION, REPORT CAPABILITIES or READ FULL STATUS reply with generated contents, fetched with the default or a "
        "generated allocation length that may cut it; decoded fields and required_allocation_length() are compared with a reference decoder. Non-trivial "
        "when something is registered or reserved, or a capability bit is set.")


def strategy():
    return reply_strategy(NAMES)


def fixed():
    for b in range(48):
        body = bytearray(6)
        body[b // 8] = 1 << b % 8
        yield dict(name="pr_caps", f=dict(body=bytes(body).hex(), alloc=None))
    holder = dict(key=0x1122334455667788, obs="00000000", rsvd=0, scope=5, type=8, obs2="0000")
    keys = [1, 0x8000000000000000, 0xABBA, (1 << 64) - 1]
    ent = dict(head="ff" * 20 + "00000000", tid="45" + "ab" * 23)
    for alloc in list(range(8, 130)) + [None, 255, 256, 512, 65535]:
        yield dict(name="pr_resv", f=dict(gen=5, holder=holder, alloc=alloc))
        yield dict(name="pr_resv", f=dict(gen=5, holder=None, alloc=alloc))
        yield dict(name="pr_keys", f=dict(gen=1 << 31, keys=keys, alloc=alloc))
        yield dict(name="pr_full", f=dict(gen=7, list=[ent, dict(ent, head="80" + "00" * 11 + "0156" + "00" * 4 + "ff80" + "00000000"), dict(ent, tid="06" + "00" * 30)], alloc=alloc))
    for n in (130, 255, 256, 257, 1023, 1024, 1025, 2048, 4097, 8190):
        yield dict(name="pr_keys", f=dict(gen=n, keys=[i << 40 | n for i in range(n)], alloc=65535))
        yield dict(name="pr_full", f=dict(gen=n, list=[ent] * (n // 6), alloc=65535))
    for n in (8191, 8192, 8193, 8200, 16384, 20000):        # more than any allocation length can ask for
        for alloc in (8, 16, 64, 65528, 65535):
            yield dict(name="pr_keys", f=dict(gen=n, keys=[i << 40 | n for i in range(n)], alloc=alloc))
            yield dict(name="pr_full", f=dict(gen=n, list=[ent] * (n * 8 // 48 + n % 2), alloc=alloc))
    for n in range(0, 64):
        yield dict(name="pr_keys", f=dict(gen=n, keys=[i << 56 | n for i in range(n)], alloc=None))
        yield dict(name="pr_full", f=dict(gen=n, list=[ent] * (n % 10), alloc=None))


def judge(c, run):
    got = decode_case(run, c["name"], c["f"])
    f = c["f"]
    cut = f["alloc"] is not None and len(got) == f["alloc"]
    return [c["name"] + ("-cut" if cut else "")], bool(f.get("keys") or f.get("holder") or f.get("list") or f.get("body", "").strip("0"))
