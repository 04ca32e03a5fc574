from hypothesis import strategies as st
from ..core import expect, brief, diff, shape_of
from ..gen import u8, u16, u32, raw, ints
from ..replies import R, page_bytes, hexed
from .. import ses
from . import p06, p18
from .p15 import conf_of

ID = "P37"
QUICK, THOROUGH = 4000, 120000
TECHNIQUE = "mutation-based fuzzing of every decoder with termination, provenance, prefix-consistency and repeatability oracles, then a reference-decoded good reply"
RULE = ("A case is a well-formed reply of any decoder (or of sense data, or an enclosure page with its configuration page) damaged by truncation, overwritten bytes, extreme length fields, insertions, deletions "
        "or replaced entirely, decoded whole and cut short; then a good reply is decoded by the same command, and the damaged one again. Non-trivial when the damaged reply is not empty and differs from the good one.")
NOTE = ("For damaged data the oracle is: decoding ends, in an ordinary error or an object; every byte string and text in the object occurs in the reply and every number of more than eight bits occurs in its bit string; no list "
        "has more entries than the bytes received could hold; what is decoded from a prefix agrees with what is decoded from the whole reply (a value that did not arrive may be absent or zero); the outcome does not depend on what was decoded before.")

SENSE = "infi.asi.sense:get_sense_object_from_buffer"
NAMES = sorted(R)
SES_NAMES = ["ses_status", "ses_desc"]
# smallest size of one entry of the lists in a reply
ENTRY = {"lun_list": 8, "key_list": 8, "full_status_descriptors": 24, "descriptor_list": 8, "target_port_descriptors": 4, "designators_list": 4, "supported_pages": 1, "page_data": 1, "vendor_specific": 1,
         "enclosure_descriptor_list": 4, "type_descriptor_header_list": 4, "status_descriptors": 4, "element_descriptors": 4, "individual_elements": 4, "descriptors": 2}
# bytes before the first entry of a reply's list: without them nothing is known about the list
HEADER = {"pr_keys": 8, "pr_full": 8, "ses_conf": 8, "rcop": 44}
DERIVED = ("hex_lun_list",)
WORD_SWAPPED = ("vpd_ata",)          # strings and numbers are assembled from swapped words

mutation = st.one_of(
    st.tuples(st.just("poke"), st.one_of(st.integers(0, 12), st.integers(0, 40), st.integers(0, 600)), st.one_of(st.sampled_from([0, 1, 2, 3, 4, 7, 8, 0x7f, 0x80, 0xfe, 0xff]), u8)),
    st.tuples(st.just("flip"), st.one_of(st.integers(0, 12 * 8), st.integers(0, 600 * 8))),
    st.tuples(st.just("length"), st.sampled_from([(0, 4), (2, 2), (3, 1), (4, 4), (7, 1), (0, 2), (8, 4)]), st.one_of(st.integers(-24, 24), st.sampled_from([1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, -1 << 15]))),
    st.tuples(st.just("insert"), st.integers(0, 80), hexed(raw(1, 8))),
    st.tuples(st.just("delete"), st.integers(0, 80), st.integers(1, 12)),
    st.tuples(st.just("fill"), st.integers(0, 24), st.sampled_from([0xff, 0, 1, 0x55, 0x80])),
    st.tuples(st.just("cut"), st.one_of(st.integers(0, 40), st.integers(0, 600))),
    st.tuples(st.just("replace"), hexed(st.one_of(raw(0, 16), page_bytes(0, 64), raw(0, 600)))))


def damage(data, muts):
    b = bytearray(data)
    for m in muts:
        if m[0] == "poke" and b:
            b[m[1] % len(b)] = m[2]
        elif m[0] == "flip" and b:
            b[m[1] // 8 % len(b)] ^= 1 << m[1] % 8
        elif m[0] == "length":
            (at, n), delta = m[1], m[2]
            if len(b) >= at + n:
                v = (int.from_bytes(b[at:at + n], "big") + delta) % (1 << 8 * n)
                b[at:at + n] = v.to_bytes(n, "big")
        elif m[0] == "insert":
            at = min(m[1], len(b))
            b[at:at] = bytes.fromhex(m[2])
        elif m[0] == "delete":
            del b[m[1]:m[1] + m[2]]
        elif m[0] == "fill":
            b[m[1]:] = bytes([m[2]]) * max(0, len(b) - m[1])
        elif m[0] == "cut":
            del b[m[1]:]
        elif m[0] == "replace":
            b = bytearray(bytes.fromhex(m[1]))
    return bytes(b)


ses_f = st.fixed_dictionaries(dict(conf=st.lists(st.tuples(ses.etype, st.integers(0, 4)), min_size=0, max_size=4).map(conf_of), b1=u8, gen=u32, rsvd=st.just(0), status=hexed(page_bytes(4, 40)),
                                   texts=st.lists(hexed(page_bytes(0, 20)), min_size=1, max_size=4)))


@st.composite
def case(draw):
    k = draw(st.integers(0, 11))
    if k == 0:
        name, fs = "sense", draw(st.lists(st.one_of(p18.fixed_sense, p18.desc_sense).map(lambda b: b.hex()), min_size=2, max_size=2))
    elif k <= 2:
        name, fs = draw(st.sampled_from(SES_NAMES)), draw(st.lists(ses_f, min_size=2, max_size=2))
    else:
        name = draw(st.sampled_from(NAMES))
        fs = draw(st.lists(R[name].strategy, min_size=2, max_size=2))
    return dict(name=name, bad=fs[0], good=fs[1], muts=[list(m) for m in draw(st.lists(mutation, min_size=0, max_size=4))], cut=draw(st.one_of(st.integers(0, 60), st.integers(0, 700))))


def strategy():
    return case()


def leaves(x, path=()):
    if isinstance(x, dict) and "$type" in x:
        for k, v in x["f"].items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        yield path, x
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


def provenance(name, obj, data, what):
    text = "".join(format(b, "08b") for b in data)
    for path, v in leaves(obj):
        at = ".".join(map(str, path))
        if isinstance(v, dict) and "$b" in v:
            expect(bytes.fromhex(v["$b"]) in data, "%s: %s holds bytes %s, which are not in the reply", what, at, v["$b"])
        elif isinstance(v, list):
            expect(v or len(path) != 1 or len(data) >= HEADER.get(name, 4), "%s: %s is an empty list although the header of the list did not arrive", what, at)
            last = next((p for p in reversed(path) if isinstance(p, str)), "")
            expect(len(v) * ENTRY.get(last, 1) <= len(data), "%s: %s has %d entries, more than the %d bytes received could hold", what, at, len(v), len(data))
        elif name in WORD_SWAPPED or any(p in DERIVED for p in path):
            continue
        elif isinstance(v, str):
            expect(v.rstrip(" \0").encode("latin-1", "replace") in data or v in p18.KEYS, "%s: %s holds the text %r, which is not in the reply", what, at, v)
        elif isinstance(v, int) and (v > 255 or v < -128):
            if v < 0:
                v &= (1 << (16 if v >= -1 << 15 else 32 if v >= -1 << 31 else 64)) - 1
            expect(format(v, "b") in text, "%s: %s is %d, which is not in the reply", what, at, v)


def agrees(part, whole, path, name):
    """First disagreement between what was decoded from a prefix and from the whole reply."""
    if part is None or whole is None and part in (0, [], "", {"$b": ""}):
        return None
    if isinstance(part, dict) and "$type" in part:
        if not (isinstance(whole, dict) and whole.get("$type") == part["$type"]):
            return "%s is %s, in the whole reply %s" % (path, brief(part, 200), brief(whole, 200))
        for k, v in part["f"].items():
            d = agrees(v, whole["f"].get(k), path + "." + k, name)
            if d:
                return d
        return None
    if isinstance(part, dict) and "$b" in part and isinstance(whole, dict) and "$b" in whole:
        ok = whole["$b"].startswith(part["$b"])
    elif isinstance(part, list) and isinstance(whole, list):
        if len(part) > len(whole):
            return "%s has %d entries, in the whole reply %d" % (path, len(part), len(whole))
        for i, (a, b) in enumerate(zip(part, whole)):
            d = agrees(a, b, "%s[%d]" % (path, i), name)
            if d:
                return d
        return None
    elif isinstance(part, str) and isinstance(whole, str):
        ok = whole.startswith(part.rstrip(" \0"))
    else:
        ok = part == whole or part == 0
    return None if ok else "%s is %s, in the whole reply %s" % (path, brief(part, 200), brief(whole, 200))


def judge(c, run):
    name = c["name"]
    specs, pre, i = [], [["build", 0]], 0
    want = None
    if name == "sense":
        specs = [{"decode": SENSE}]
        bad, good = bytes.fromhex(c["bad"]), bytes.fromhex(c["good"])
    elif name in SES_NAMES:
        page, build, exp = (2, ses.status_build, ses.status_expect) if name == "ses_status" else (7, ses.descriptor_build, ses.descriptor_expect)
        specs = [{"cmd": dict(p06.sp("diagnostic.ses_pages:get_ses_page", 1), factory=True)}, {"cmd": dict(p06.sp("diagnostic.ses_pages:get_ses_page", page), factory=True), "conf": 0}]
        good_f = dict(c["good"], conf=c["bad"]["conf"])
        bad, good, want = build(c["bad"]), build(good_f), exp(good_f)
        pre = [["build", 0], ["run", 0, {"data": ses.conf_build(c["bad"]["conf"]).hex()}, []], ["build", 1]]
        i = 1
    else:
        r = R[name]
        bad, good = r.build(c["bad"]), r.build(c["good"])
        specs = [{"cmd": r.cmd(c["bad"])}]
        probe = run("execute", cmd=r.cmd(c["bad"]), replies=[{"raise": "AsiSCSIError"}], shape=None)
        length = probe["requests"][0].get("len", 0)
        bad = bad[:length]
        got = good[:length]
        want = r.expect(c["good"], got) if len(got) == len(good) and r.cmd(c["good"]) == r.cmd(c["bad"]) else None
    bad = damage(bad, c["muts"])
    if name not in SES_NAMES and name != "sense":
        bad = bad[:length]
    part = bad[:c["cut"] % (len(bad) + 1)]
    reply = lambda d: {"data": d.hex(), "trunc": 1}
    obs = run("sequence", objects=specs, steps=pre + [["run", i, reply(d), []] for d in (bad, part, good, bad)])
    outs = obs["out"][len(pre):]
    what = "%s reply %s" % (name, brief(bad.hex(), 400))
    for r in obs["out"][:len(pre)]:
        expect("error" not in r, "%s: %s raised %s", what, r["step"], brief(r.get("error")))
    first, cut, better, again = outs
    for o, d, w in ((first, bad, what), (cut, part, "%s cut to %d bytes" % (what, len(part)))):
        expect(len(o.get("requests", [0])) == 1, "%s: %d requests", w, len(o.get("requests", [])))
        if "error" not in o and o["result"] is not None:
            provenance(name, o["result"], d, w)
    if "error" not in first and "error" not in cut and cut["result"] is not None:
        d = agrees(cut["result"], first["result"], "", name)
        expect(d is None, "%s cut to %d bytes: %s", what, len(part), d)
    expect(first.get("error", {}).get("type") == again.get("error", {}).get("type") and first.get("result") == again.get("result"),
           "%s: decoded first to %s and, after other replies, to %s", what, brief(first.get("error") or first["result"], 300), brief(again.get("error") or again["result"], 300))
    if want is not None:
        w = "%s reply %s after the damaged %s" % (name, brief(good.hex(), 300), brief(bad.hex(), 300))
        expect("error" not in better, "%s: raised %s", w, brief(better.get("error")))
        shaped = run("sequence_shape", objects=specs, steps=pre + [["run", i, reply(bad), []]], last=["run", i, reply(good), []], shape=shape_of(want))
        expect("error" not in shaped, "%s: raised %s", w, brief(shaped.get("error")))
        d = diff(want, shaped["result"])
        expect(d is None, "%s: %s", w, d)
    for r in obs["changed"]:
        expect(False, "%s: the decoded reply changed from %s to %s when another was decoded", what, brief(r["first"], 300), brief(r["now"], 300))
    labels = [name, "error" if "error" in first else "decoded"]
    return labels, bool(bad) and bad != good
