from hypothesis import strategies as st
from ..core import expect, brief, diff, shape_of
from ..decode import decode_case, reply_strategy
from ..gen import u8, u16, u32, u64, raw, ints, bit, nbits
from ..replies import R, be, bits
from ..replies import luns_build, luns_expect, page_bytes, simple_lun, hexed, Pred, CDB

ID = "P12"
QUICK, THOROUGH = 5000, 120000
RULE = ("A case is a REPORT LUNS inventory (simple, flat, multi-level, extended and arbitrary entries in any mix), an allocation length and the opt-in "
        "flag; the decoded lists or the unsupported-addressing error are compared with the standard. Non-trivial when at least one entry is reported or an "
        "error is due.")
MULTI, METHOD = "UnsupportedLunAdressing", "UnsupportedLogicalUnitAddressingMethod"

odd_lun = st.one_of(u64, st.builds(lambda a, s: (a | 0x4000) << 48 | 0 * s, u16, bit), st.builds(lambda a, s: a << s, u16, st.sampled_from([0, 16, 32, 48])),
                    st.integers(0, 63).map(lambda b: 1 << b), st.builds(lambda a, b: (a & 0x3FFF) << 48 | 1 << b, u16, st.integers(0, 47)))


@st.composite
def case(draw):
    k = draw(st.integers(0, 4))
    luns = draw(st.lists(simple_lun, max_size=24))
    if k >= 2:
        for o in draw(st.lists(odd_lun, min_size=1, max_size=3)):
            luns.insert(draw(st.integers(0, len(luns))), o)
    if k == 4 and draw(bit):
        luns = luns * draw(st.integers(2, 60))
    allocation = draw(st.one_of(st.none(), st.none(), st.just(8 + 8 * len(luns)), st.integers(0, 40)))
    return dict(luns=luns, rsvd=draw(page_bytes(4)).hex(), allow=draw(bit), alloc=allocation, select=draw(st.one_of(st.sampled_from([0, 1, 2]), u8)), pad=draw(st.sampled_from(["", "00", "5a", "ff", "0001000000000000"])))


def strategy():
    return case()


def fixed():
    for b in range(64):
        for allow in (0, 1):
            yield dict(luns=[0, 1 << b, 5 << 48], rsvd="00000000", allow=allow, alloc=None, select=0)
    for n in list(range(0, 30)) + [255, 256, 257, 2000, 2047]:
        yield dict(luns=[(i & 0x3FFF) << 48 for i in range(n)], rsvd="ffffffff", allow=0, alloc=None, select=0)
        yield dict(luns=[(i & 0x3FFF) << 48 | 1 for i in range(n)], rsvd="00000000", allow=1, alloc=None, select=2)
    for n in (2048, 4095, 4097, 8192, 8193, 16384, 20000):      # more than the 256 logical units of a target without the flat space
        yield dict(luns=[((i * 7919) & 0x3FFF) << 48 for i in range(n)], rsvd="00000000", allow=0, alloc=8 + 8 * n, select=2)
        yield dict(luns=[0x4000 + (i & 0x3FFF) << 48 | i >> 14 for i in range(n)], rsvd="00000000", allow=1, alloc=8 + 8 * n + 64, select=0)
        yield dict(luns=[(i & 0x3FFF) << 48 for i in range(n - 1)] + [1], rsvd="00000000", allow=0, alloc=8 + 8 * n, select=0)
    for alloc in range(0, 40):
        yield dict(luns=[1 << 48, 2 << 48, 3 << 48, 0x0100 << 48], rsvd="00000000", allow=0, alloc=alloc, select=0)


def judge(c, run):
    luns = c["luns"]
    data = luns_build(c)
    kw = dict(select_report=c["select"], allow_unsupported_addressing_format=bool(c["allow"]))
    if c["alloc"] is not None:
        kw["allocation_length"] = c["alloc"]
    cmd = {"cls": CDB + "report_luns:ReportLunsCommand", "kwargs": kw}
    limit = 16384 if c["alloc"] is None else c["alloc"]
    reply = {"data": data.hex(), "trunc": 1}
    if c["alloc"] is not None and c["alloc"] < 16:
        # the raw reply is returned unchanged; a device always returns the allocation when it has that much
        obs = run("execute", cmd=cmd, replies=[reply], shape=None)
        if len(data) >= limit:
            expect("error" not in obs, "REPORT LUNS allocation %d: raised %s", limit, brief(obs.get("error")))
            expect(obs["result"] == {"$b": data[:limit].hex()}, "REPORT LUNS allocation %d returned %s instead of the raw reply %s", limit, brief(obs["result"]), data[:limit].hex())
        return ["raw"], limit > 0
    if len(data) > limit:
        return ["cut"], False
    if c.get("pad"):        # the buffer of the operating system
        unit = bytes.fromhex(c["pad"])
        reply = {"data": (data + (unit * (limit // len(unit) + 1))[:limit - len(data)]).hex()}
    want = luns_expect(c, data)
    what = "REPORT LUNS of %s (allow=%d)" % (brief([hex(v) for v in luns], 400), c["allow"])
    obs = run("execute", cmd=cmd, replies=[reply], shape=shape_of(want))
    due = []
    for v in luns:
        if v & ((1 << 48) - 1):
            due.append(MULTI)
        if v >> 62:
            due.append(METHOD)
    if due and not c["allow"]:
        expect("error" in obs, "%s: accepted, result %s", what, brief(obs.get("result")))
        bad = {MULTI: lambda v: bool(v & ((1 << 48) - 1)), METHOD: lambda v: bool(v >> 62)}
        expect(obs["error"]["type"] in due and "UnsupportedReportLuns" in obs["error"]["mro"], "%s: raised %s, due %s", what, brief(obs["error"]), sorted(set(due)))
        return ["refused"], True
    expect("error" not in obs, "%s: raised %s", what, brief(obs.get("error")))
    d = diff(want, obs["result"])
    expect(d is None, "%s: %s", what, d)
    return ["allowed" if due else "simple"], bool(luns)
