from hypothesis import strategies as st
from ..core import expect, brief, diff, shape_of
from ..gen import u8, u32
from ..replies import page_bytes, hexed
from .. import ses

ID = "P15"
QUICK, THOROUGH = 1200, 50000
RULE = ("A case is a generated enclosure configuration (element types, 0..255 possible elements each, several enclosures) and a matching Enclosure Status page whose status bytes "
        "are generated; the decoded page is compared element by element with a table of SES-3 field positions. Non-trivial when a status byte is non-zero.")


def conf_of(pairs):
    enc = dict(b0=0x11, sub=0, logical="00" * 8, vendor="20" * 8, product="20" * 16, rev="20" * 4, info="", headers=len(pairs))
    # an enclosure describes at most 255 types; more of them belong to subenclosures
    encs = [dict(enc, sub=i // 255, headers=min(255, len(pairs) - i)) for i in range(0, len(pairs), 255)] or [enc]
    return dict(encs=encs, heads=[dict(type=t, n=n, sub=0, text="") for t, n in pairs], gen=1)


def many(k, first, step):
    """A configuration with k type descriptors."""
    return conf_of([((first + i * step) % 0x1A if i % 9 else 0x9E, (first + i) % 4 % 3) for i in range(k)])


MANY = st.builds(many, st.one_of(st.integers(6, 40), st.sampled_from([16, 17, 32, 33, 64, 65, 127, 128, 129, 254, 255])), st.integers(0, 25), st.integers(1, 25))


def strategy():
    # sparse patterns, so that one flag is on where its neighbours are off
    status = hexed(st.one_of(page_bytes(4, 64), page_bytes(4, 64), page_bytes(4)))
    lists = st.lists(st.tuples(ses.etype, ses.count), min_size=1, max_size=5).map(conf_of)
    conf = st.one_of(ses.configuration(small=True), lists, ses.configuration(small=True), lists, lists, MANY)
    return st.fixed_dictionaries(dict(conf=conf, b1=u8, gen=u32, status=status))


def fixed():
    for t in list(ses.KNOWN_TYPES) + [0x1A, 0x7F, 0x80, 0x9D, 0x9F, 0xFF]:
        for i in range(32):
            for invert in (0, 0xFF):
                b = bytearray([invert] * 4)
                b[i // 8] ^= 1 << i % 8
                # three elements: the pattern sits in the middle one only
                yield dict(conf=conf_of([(0x05, 1), (t, 3), (0x0E, 1)]), b1=1 << i % 8, gen=i << 27 & 0xFFFFFFFF, status=("00000000" * 4 + bytes(b).hex() + "00000000" * 3))
        for word in ("01058000", "017fff7f", "01800080", "0100ff00", "010700ff", "0103e97f", "01008001", "01f8fffe"):
            yield dict(conf=conf_of([(t, 2)]), b1=0, gen=0, status="01000000" + word + word[::-1])
    for k in (6, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 600):
        yield dict(conf=many(k, k % 26, 7), b1=0, gen=k, status="01020304ff00ff00a5c3")
    for n in (0, 1, 127, 128, 129, 254, 255):
        for t in (0x17, 0x03, 0x18, 0x9E, 0xA0):
            yield dict(conf=conf_of([(t, n), (0x04, 2), (t, n)]), b1=n & 0x1F, gen=n, status="010203040506070811223344ff00ff00a5")


def judge(c, run):
    want = ses.status_expect(c)
    data = ses.status_build(c)
    what = "configuration %s, page %s" % (brief([(h["type"], h["n"]) for h in c["conf"]["heads"]], 200), brief(data.hex(), 300))
    # another page read with the same configuration must come out right too, and leave the first as it was
    other = dict(c, status=bytes(b ^ 0x5A for b in bytes.fromhex(c["status"])).hex(), gen=c["gen"] ^ 1)
    want2 = ses.status_expect(other)
    again = dict(then=dict(data=ses.status_build(other).hex(), shape=shape_of(want2)), same_command=bool(c["gen"] & 2))
    obs = run("ses_read", conf=ses.conf_build(c["conf"]).hex(), cmd=2, data=data.hex(), shape=shape_of(want), **again)
    expect("conf_error" not in obs, "%s: the configuration page is refused: %s", what, brief(obs.get("conf_error")))
    expect("build_error" not in obs and "error" not in obs, "%s: decoding raised %s", what, brief(obs.get("error", obs.get("build_error"))))
    d = diff(want, obs["result"])
    expect(d is None, "%s: %s", what, d)
    if again:
        expect("error" not in obs["then"], "%s: decoding another page raised %s", what, brief(obs["then"].get("error")))
        d = diff(want2, obs["then"]["result"])
        expect(d is None, "another page %s, after %s: %s", brief(again["then"]["data"], 300), what, d)
        d = diff(want, obs["after"])
        expect(d is None, "%s: the decoded page changed when another page was decoded: %s", what, d)
    req = obs["requests"]
    expect(len(req) == 1 and req[0]["cdb"] == "1c0102ffff00", "%s: requested with %s", what, brief(req))
    types = {h["type"] for h in c["conf"]["heads"] if h["n"]}
    return ["type:%02x" % t if t in ses.KNOWN_TYPES else "type:other" for t in sorted(types)][:8], any(data[8:])
