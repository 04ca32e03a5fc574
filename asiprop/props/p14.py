from hypothesis import strategies as st
from ..core import expect, brief
from ..decode import decode_case, reply_strategy
from .. import ses

ID = "P14"
QUICK, THOROUGH = 3000, 60000
NAMES = ["ses_conf", "ses_conf", "ses_supported", "ses_vendor80", "ses_unknown"]
RULE = ("A case is a well-formed Configuration page (up to 131 enclosures, up to 255 type headers in one of them, texts up to 255 bytes), or a Supported Pages, vendor 80h or "
        "unrecognised page with any payload, built by a reference encoder and fetched with the page's command. Non-trivial when it has a type header or a payload.")


def strategy():
    return st.sampled_from(NAMES).flatmap(lambda n: ses_strategy(n))


def ses_strategy(n):
    from ..replies import R
    return R[n].strategy.map(lambda f: dict(name=n, f=f))


def fixed():
    enc = dict(b0=0x52, sub=0x80, logical="5000000000000001", vendor=b"NEWISYS ".hex(), product=b"NDS-4600-JD     ".hex(), rev=b"B507".hex(), info="", headers=0)
    for n in list(range(0, 13)) + [127, 128, 129, 252, 253, 254, 255]:
        h = dict(type=0x17, n=n, sub=n, text=("41" * n))
        yield dict(name="ses_conf", f=dict(encs=[dict(enc, headers=1, info="ab" * min(n, 219))], heads=[h], gen=0xFFFFFFFF - n))
        yield dict(name="ses_conf", f=dict(encs=[dict(enc, headers=n)], heads=[dict(h, text="", type=i % 256, n=i % 256, sub=255 - i % 256) for i in range(n)], gen=n))
        yield dict(name="ses_conf", f=dict(encs=[dict(enc, sub=i % 256) for i in range(n)] + [dict(enc, headers=1)], heads=[dict(h, text="4142")], gen=n))
    for n in (256, 257, 511, 1025, 4097, 12000):        # the types of several enclosures, and texts that fill the page
        encs = [dict(enc, sub=j // 255 % 256, headers=min(255, n - j)) for j in range(0, n, 255)]
        for text in ("", "41", "42" * (60000 // n - 10)):
            if len(encs) * 40 + n * (4 + len(text) // 2) < 65500:
                yield dict(name="ses_conf", f=dict(encs=encs, heads=[dict(h, text=text, type=i % 256, n=i % 255, sub=i % 256) for i in range(n)], gen=n))
    for n in list(range(252)):
        if n % 7 == 0 or n > 245 or 125 < n < 130:
            for name in ("ses_supported", "ses_vendor80")[n == 0:]:   # page 00h lists at least itself
                yield dict(name=name, f=dict(b1=n, data=bytes((i + n) & 255 for i in range(n)).hex()))
    for code in range(256):
        if code not in ses.DEDICATED:
            yield dict(name="ses_unknown", f=dict(code=code, b1=255 - code, data=bytes((i * 3 + code) & 255 for i in range(code * 8)).hex()))


def judge(c, run):
    decode_case(run, c["name"], c["f"])
    f = c["f"]
    return [c["name"]], bool(f.get("data") or f.get("heads"))
