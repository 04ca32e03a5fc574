from hypothesis import strategies as st
from ..core import expect, brief, diff, shape_of
from ..decode import decode_case, reply_strategy
from ..gen import u8, u16, u32, u64, raw, ints, bit, nbits
from ..replies import R, be, bits
from ..replies import designator, DESIGNATORS, devid_build, designator_expect, fit, page_bytes, unhex

ID = "P09"
QUICK, THOROUGH = 5000, 120000
RULE = ("A case is a Device Identification page holding 0..60 generated designators of every type (vendor, T10, EUI-64 of three lengths, NAA 2/3/5/6, port, "
        "groups, MD5, SCSI name, protocol port, UUID, reserved), fetched with the command when it fits its allocation and unpacked directly otherwise; "
        "the decoded list is compared entry by entry. Non-trivial when it holds at least two designators.")

# valid type, but an NAA or EUI-64 form no standard defines: the page may be rejected
odd = st.one_of(st.sampled_from([0, 1, 4, 7, 8, 15]).flatmap(lambda n: raw(8).map(lambda b: "0103000800" [:8] + bytes([n << 4 | b[0] & 15]).hex() + b[1:].hex())),
                st.sampled_from([1, 4, 7, 9, 15, 20]).flatmap(lambda n: raw(n).map(lambda b: bytes([1, 2, 0, n]).hex() + b.hex())))


@st.composite
def case(draw):
    k = draw(st.integers(0, 9))
    if k == 0:
        lst = draw(st.lists(designator, min_size=8, max_size=60).map(fit(4000)))
    elif k == 1:
        one = draw(designator)
        lst = fit(248)([one] * draw(st.integers(1, 31)))
    else:
        lst = draw(st.lists(designator, max_size=14).map(fit(248)))
    c = dict(p=draw(u8), list=lst)
    if k == 2:
        c["odd"] = [draw(st.integers(0, len(lst))), draw(odd)]
    return c


def strategy():
    return case()


def fixed():
    ident = {"vendor": "0100%s%02x", "t10": "0201%s%02x"}
    for t in range(16):
        for fill in (0x00, 0xFF, 0x41, 0x81):
            sizes = {1: [8, 9, 40], 2: [8, 12, 16], 3: [8], 4: [4], 5: [4], 6: [4], 7: [16]}.get(t, [0, 1, 4, 20, 200])
            for n in sizes:
                if t == 3:
                    for naa in (2, 3, 5, 6):
                        size = 16 if naa == 6 else 8
                        x = bytes([0x61, 0x93, 0, size, naa << 4 | 5]) + bytes((fill + 3 * i) & 0xFF for i in range(size - 1))
                        yield dict(p=0, list=[x.hex()] * 2)
                    continue
                body = bytes((fill + 3 * i) & 0xFF for i in range(n))
                if t == 1:
                    body = b"VENDORID" + body[8:]
                x = bytes([0x51, 0xA0 | t, 0, n]) + body
                yield dict(p=0, list=[x.hex()])
                yield dict(p=0, list=fit(248)([x.hex(), "01030008" + "6000000000000001"[:0] + "5000000000000001", x.hex()]))
    for b in range(16 * 8):
        for naa, size in ((2, 8), (3, 8), (5, 8), (6, 16)):
            x = bytearray(size)
            if b // 8 < size:
                x[b // 8] = 1 << b % 8
            x[0] = x[0] & 15 | naa << 4
            yield dict(p=0, list=[(bytes([1, 3, 0, size]) + bytes(x)).hex()])
        for size in (8, 12, 16):
            x = bytearray(size)
            if b // 8 < size:
                x[b // 8] = 1 << b % 8
                yield dict(p=0, list=[(bytes([1, 2, 0, size]) + bytes(x)).hex()])


def judge(c, run):
    lst = list(c["list"])
    data = devid_build(dict(c, list=lst))
    what = "Device Identification with designators %s" % brief(lst, 600)
    if "odd" in c:
        at, extra = c["odd"]
        lst.insert(at, extra)
        data = devid_build(dict(c, list=lst))
        want = [designator_expect(unhex(h)) if h is not extra else {} for h in lst]
        shape = dict(designators_list=shape_of(want))
        obs = run("decode", cls=R["vpd_devid"].raw_cls, data=data.hex(), shape=shape)
        if "error" not in obs:
            d = diff(dict(designators_list=want), obs["result"])
            expect(d is None, "%s with an undefined form %s: %s", what, extra, d)
        return ["undefined-form"], False
    if len(data) > 252:
        want = R["vpd_devid"].expect(dict(c), data)
        obs = run("decode", cls=R["vpd_devid"].raw_cls, data=data.hex(), shape=shape_of(want))
        expect("error" not in obs, "%s: decoding raised %s", what, brief(obs.get("error")))
        d = diff(want, obs["result"])
        expect(d is None, "%s: %s", what, d)
    else:
        decode_case(run, "vpd_devid", dict(c, list=lst))
    return ["long" if len(data) > 252 else "short"] + sorted({"type-%d" % (unhex(h)[1] & 15) for h in lst}), len(lst) >= 2
