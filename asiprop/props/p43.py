import re
from hypothesis import strategies as st
from ..core import expect, brief
from ..replies import R
from .. import ses
from .. import execs as X
from . import p06, p37

ID = "P43"
QUICK, THOROUGH = 2000, 60000
TECHNIQUE = "property-based testing of the texts of decoded replies and errors, with a metamorphic oracle (text against decoded values, before and after)"
RULE = ("A case decodes two replies of any decoder (well-formed, or damaged but still decodable) or fails two commands with sense data, and shows both several times in a generated order; "
        "what the texts state under the name of a field must be what was decoded, and showing must change nothing. Non-trivial when the text has to name at least three values that are not zero.")
NOTE = "How a value is written (decimal or hexadecimal, which quotes) is left open; padding and values that are absent need not be shown."


@st.composite
def case(draw):
    k = draw(st.integers(0, 11))
    if k <= 1:
        name, fs = "sense", draw(st.lists(X.sense_bytes, min_size=2, max_size=2))
        if fs[0] and draw(st.booleans()):        # two that differ in one place only
            b = bytearray(bytes.fromhex(fs[0]))
            b[draw(st.integers(0, min(len(b), 252) - 1))] ^= draw(st.integers(1, 255))
            fs = [fs[0], b.hex()]
    elif k <= 3:
        name, fs = draw(st.sampled_from(p37.SES_NAMES)), draw(st.lists(p37.ses_f, min_size=2, max_size=2))
    else:
        name = draw(st.sampled_from(p37.NAMES))
        fs = draw(st.lists(R[name].strategy, min_size=2, max_size=2))
    muts = draw(st.lists(st.lists(p37.mutation, max_size=2).map(lambda m: [list(x) for x in m]), min_size=2, max_size=2)) if draw(st.integers(0, 2)) == 0 else [[], []]
    return dict(name=name, fs=fs, muts=muts, order=draw(st.lists(st.integers(0, 1), min_size=2, max_size=5)), platform=draw(st.sampled_from(["linux_sg", "linux_ioctl", "solaris", "aix", "windows"])))


def strategy():
    return case()


def fixed():
    for key in range(16):
        for code, q in ((0, 0), (0x24, 0), (0x29, 3), (0x04, 0x0a), (0x5d, 0x14), (0x80, 1), (0xff, 0xff), (0x11, 0x99), (0x40, 0x85), (0x4d, 7), (0x70, 0x21)):
            a = "%02x00%02x000000000a00000000%02x%02x00000000" % (0x70 + key % 2, key, code, q)
            b = "%02x%02x%02x%02x00000000" % (0x72 + key % 2, key, code, q)
            yield dict(name="sense", fs=[a, b], muts=[[], []], order=[0, 1, 0], platform=["linux_sg", "linux_ioctl", "solaris", "aix", "windows"][key % 5])


    for at in range(252):
        b = bytearray([0x70 + 2 * (at % 2), 0, 5] + [0] * 4 + [10] + [at % 7] * 244)
        if at % 2:
            b = b[:7] + bytes([244]) + bytes([0x80, 242]) + b[10:]
        c = bytearray(b)
        c[at] ^= 0x5a
        yield dict(name="sense", fs=[b.hex(), c.hex()], muts=[[], []], order=[0, 1, 0], platform="linux_sg")


def shown(text, name, value):
    """Does the text give this value (under this name)?"""
    if isinstance(value, int):
        return re.search(r"\b%s\b\W{1,3}(?:%s|%s|0x0*%x)\b" % (re.escape(name), value, bool(value), value & (1 << 64) - 1), text, re.I) is not None
    if isinstance(value, str):
        return repr(value) in text or repr(value.encode("utf-8", "replace")) in text or value in text
    if isinstance(value, dict) and "$b" in value:
        b = bytes.fromhex(value["$b"])
        return repr(b)[2:-1] in text.replace("\\\\", "\\") or b.hex() in text.lower() or repr(bytearray(b))[10:-1] in text or " ".join("%02x" % x for x in b) in text.lower() or all(("%d" % x in text) for x in b) \
            or re.sub(r"[\\'\"]", "", repr(b)[2:-1]) in re.sub(r"[\\'\"]", "", text)
    return True


def named(value, name=""):
    """(name, value) of everything a decoded reply holds."""
    if isinstance(value, dict) and "$type" in value:
        for n, v in value["f"].items():
            yield from named(v, n)
    elif isinstance(value, list):
        for v in value:
            yield from named(v, None if not isinstance(v, dict) or "$type" not in v else name)
    elif value is not None:
        yield name, value


def check_text(text, value, w):
    """What the text states under the name of a field is what was decoded; fields that a class inherits need not be stated."""
    count, values = 0, {}
    for name, v in named(value):
        if name is not None:
            values.setdefault(name, []).append(v)
    for name, vs in values.items():
        if not re.search(r"\b%s\b\W{1,3}" % re.escape(name), text):
            continue
        for v in vs:
            if vs.count(v) < 2 or v == vs[0]:
                count += bool(v) and v not in ("", {"$b": ""})
                if len(vs) == 1:
                    expect(shown(text, name, v), "%s: the text does not show that %s is %s: %s", w, name, brief(v, 120), brief(text, 1500))
        if all(isinstance(v, int) for v in vs):
            for m in re.finditer(r"(?<!\w)%s=(-?(?:0x[0-9a-f]+|[0-9]+))" % re.escape(name), text, re.I):
                stated = int(m.group(1), 0)
                expect(stated in vs, "%s: the text states %s=%s, decoded was %s: %s", w, name, m.group(1), brief(vs, 200), brief(text, 1500))
    return count


def judge_sense(c, run):
    what = "%s commands failed with sense data %s" % (c["platform"], c["fs"])
    obs = run("shown_errors", platform=c["platform"], senses=c["fs"], order=c["order"])
    count = 0
    for k, text, data in obs["texts"]:
        w = "%s: error %d" % (what, k)
        expect(isinstance(text, str), "%s could not be shown: %s", w, brief(text))
        sent = bytes.fromhex(c["fs"][k])[:252]
        expect(sent.hex() in re.sub(r"[^0-9a-f]", "", text.lower().replace("\\x", "")), "%s: the text does not give the sense bytes: %s", w, brief(text, 600))
        expect(data["again"] == text, "%s: shown differently the second time", w)
        count = max(count, check_text(text, data["sense"], w))
    expect(obs["same"], "%s: showing the errors changed their sense data", what)
    return ["sense"], count >= 3


def judge(c, run):
    name = c["name"]
    if name == "sense":
        return judge_sense(c, run)
    pre, i = [["build", 0]], 0
    if name in p37.SES_NAMES:
        page, build = (2, ses.status_build) if name == "ses_status" else (7, ses.descriptor_build)
        specs = [{"cmd": dict(p06.sp("diagnostic.ses_pages:get_ses_page", 1), factory=True)}, {"cmd": dict(p06.sp("diagnostic.ses_pages:get_ses_page", page), factory=True), "conf": 0},
                 {"cmd": dict(p06.sp("diagnostic.ses_pages:get_ses_page", page), factory=True), "conf": 0}]
        replies = [build(dict(f, conf=c["fs"][0]["conf"])) for f in c["fs"]]
        pre = [["build", 0], ["run", 0, {"data": ses.conf_build(c["fs"][0]["conf"]).hex()}, []], ["build", 1], ["build", 2]]
        i = 1
    else:
        specs = [{"cmd": R[name].cmd(f)} for f in c["fs"]]
        replies = [R[name].build(f) for f in c["fs"]]
        pre = [["build", 0], ["build", 1]]
    replies = [p37.damage(b, m) for b, m in zip(replies, c["muts"])]
    steps = pre + [["run", i + k, {"data": b.hex(), "trunc": 1}, []] for k, b in enumerate(replies)]
    steps += [["show", i + k, "reply"] for k in c["order"]] + [["text", i + k] for k in c["order"]]
    obs = run("sequence", objects=specs, steps=steps)
    outs = obs["out"]
    runs = {r["i"] - i: r for r in outs if r["step"] == "run" and r["i"] >= i}
    count, texts = 0, {}
    for r in outs[len(pre) + 2:]:
        k = r["i"] - i
        w = "%s reply %s" % (name, brief(replies[k].hex(), 400))
        if "error" in runs[k]:
            if r["step"] == "show":
                continue
        expect("error" not in r, "%s: %s raised %s", w, "showing the command" if r["step"] == "text" else "showing it", brief(r.get("error")))
        a, b = r["texts"]
        expect(a == b and texts.setdefault((k, r["step"]), a) == a, "%s: shown as %s and then as %s", w, brief(texts.get((k, r["step"]), a), 400), brief(b, 400))
        if r["step"] == "show" and runs[k]["result"] is not None:
            count = max(count, check_text(a, runs[k]["result"], w))
    for r in obs["changed"]:
        expect(False, "%s: showing replies changed one from %s to %s", name, brief(r["first"], 300), brief(r["now"], 300))
    return [name], count >= 3
