from hypothesis import strategies as st
from ..core import expect, brief, diff, shape_of
from ..gen import u8, u16, u32
from ..replies import page_bytes, hexed
from .. import ses
from .p15 import conf_of, many, MANY

ID = "P16"
QUICK, THOROUGH = 2500, 50000
RULE = ("A case is a generated enclosure configuration and a matching Element Descriptor page with generated descriptor texts of 0..65000 bytes; groups, lengths and bytes are "
        "compared with a reference decoder. Non-trivial when a descriptor has text.")


def total(c):
    return sum(4 + len(t) for g in ses.descriptor_groups(c) for t in g)


def strategy():
    small = st.lists(hexed(st.one_of(page_bytes(0, 12), page_bytes(0, 60))), min_size=1, max_size=7)
    large = st.lists(hexed(st.one_of(page_bytes(0, 12), page_bytes(0, 1000))), min_size=1, max_size=4)
    lists = st.lists(st.tuples(ses.etype, ses.count), min_size=1, max_size=4).map(conf_of)
    conf = st.one_of(ses.configuration(small=True), lists, ses.configuration(small=True), lists, lists, MANY)
    a = st.fixed_dictionaries(dict(conf=conf, b1=u8, gen=u32, rsvd=u16, texts=small))
    b = st.fixed_dictionaries(dict(conf=st.lists(st.tuples(ses.etype, st.integers(0, 4)), min_size=1, max_size=4).map(conf_of), b1=u8, gen=u32, rsvd=u16, texts=large))
    return st.one_of(a, a, b).filter(lambda c: total(c) <= 65527)


def fixed():
    for n in list(range(0, 40)) + [127, 128, 255, 256, 511, 4095, 32766, 32767, 32768, 40000, 65519]:
        texts = [bytes((i + n) & 255 for i in range(n)).hex()]
        conf = conf_of([(0x17, 0)]) if n > 1000 else conf_of([(0x17, 2), (0x02, 0), (0x18, 1)])
        yield dict(conf=conf, b1=0, gen=n, rsvd=0, texts=texts if n > 1000 else texts + ["", "414243"])
    for k in (6, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 600):
        yield dict(conf=many(k, k % 26, 7), b1=0, gen=k, rsvd=0, texts=["", "41", "4242", "434343"])
    for n in (0, 1, 127, 128, 129, 254, 255):
        yield dict(conf=conf_of([(1, n), (2, 3), (0xFF, n)]), b1=255, gen=0x80000000 + n, rsvd=0xFFFF, texts=["", "41", "4242", "434343", "", "00", "ffff00"])


def judge(c, run):
    want = ses.descriptor_expect(c)
    data = ses.descriptor_build(c)
    what = "configuration %s, page %s" % (brief([(h["type"], h["n"]) for h in c["conf"]["heads"]], 200), brief(data.hex(), 300))
    # another page read with the same configuration must come out right too, and leave the first as it was
    other = dict(c, texts=c["texts"][::-1] + ["3f"], gen=c["gen"] ^ 1)
    want2 = ses.descriptor_expect(other)
    again = dict(then=dict(data=ses.descriptor_build(other).hex(), shape=shape_of(want2)), same_command=bool(c["gen"] & 2)) if total(other) <= 65527 else {}
    obs = run("ses_read", conf=ses.conf_build(c["conf"]).hex(), cmd=7, data=data.hex(), shape=shape_of(want), **again)
    expect("conf_error" not in obs, "%s: the configuration page is refused: %s", what, brief(obs.get("conf_error")))
    expect("build_error" not in obs and "error" not in obs, "%s: decoding raised %s", what, brief(obs.get("error", obs.get("build_error"))))
    d = diff(want, obs["result"])
    expect(d is None, "%s: %s", what, d)
    if again:
        expect("error" not in obs["then"], "%s: decoding another page raised %s", what, brief(obs["then"].get("error")))
        d = diff(want2, obs["then"]["result"])
        expect(d is None, "another page %s, after %s: %s", brief(again["then"]["data"], 300), what, d)
        d = diff(want, obs["after"])
        expect(d is None, "%s: the decoded page changed when another page was decoded: %s", what, d)
    req = obs["requests"]
    expect(len(req) == 1 and req[0]["cdb"] == "1c0107ffff00", "%s: requested with %s", what, brief(req))
    n = sum(len(g) for g in ses.descriptor_groups(c))
    return ["elements:%s" % ("0" if n == 0 else "1-9" if n < 10 else "10-99" if n < 100 else "100+")], any(c["texts"]) and n > 0
