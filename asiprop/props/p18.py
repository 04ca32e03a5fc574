from hypothesis import strategies as st
from ..core import expect, brief, diff, shape_of, Pred, Bytes
from ..gen import raw, u8, u16, u32, nbits, bit
from ..replies import be, bits, page_bytes
from .. import execs as X

ID = "P18"
QUICK, THOROUGH = 5000, 120000
TECHNIQUE = "property-based testing against a reference sense decoder, through the executers of every platform"
RULE = ("A case is sense data in fixed format (70h/71h), descriptor format (72h/73h with any list of descriptors), with another response code, or arbitrary bytes, "
        "reported by a failing command on one of the platform executers or decoded directly. Non-trivial when a known response code carries non-zero content.")
NOTE = "Malformed sense data is only required to raise the check condition error with its raw bytes, whatever is decoded from it."

KEYS = ["NO_SENSE", "RECOVERED_ERROR", "NOT_READY", "MEDIUM_ERROR", "HARDWARE_ERROR", "ILLEGAL_REQUEST", "UNIT_ATTENTION", "DATA_PROTECT", "BLANK_CHECK",
        "VENDOR_SPECIFIC", "COPY_ABORTED", "ABORTED_COMMAND", "RESERVED", "VOLUME_OVERFLOW", "MISCOMPARE", "COMPLETED"]
PLATFORMS = ["linux_sg", "linux_sg", "linux_ioctl", "solaris", "aix", "windows", "direct"]

info_desc = st.tuples(u8, u8, raw(8)).map(lambda t: bytes([0, 0x0a, t[0], t[1]]) + t[2])
other_desc = st.tuples(st.integers(1, 255), raw(0, 30)).map(lambda t: bytes([t[0], len(t[1])]) + t[1])


def fit(items):
    out, size = [], 0
    for d in items:
        if size + len(d) > 244:
            break
        out.append(d)
        size += len(d)
    return b"".join(out)


fixed_sense = st.tuples(st.sampled_from([0x70, 0x71]), bit, page_bytes(17), raw(0, 60)).map(lambda t: bytes([t[0] | t[1] << 7]) + t[2] + t[3])
desc_sense = st.tuples(st.sampled_from([0x72, 0x73]), bit, page_bytes(6), st.lists(st.one_of(info_desc, other_desc, other_desc), max_size=8).map(fit)).map(
    lambda t: bytes([t[0] | t[1] << 7]) + t[2] + bytes([len(t[3])]) + t[3])


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["fixed", "fixed", "desc", "desc", "desc", "other", "any"]))
    if kind == "fixed":
        b = draw(fixed_sense)
    elif kind == "desc":
        b = draw(desc_sense)
    elif kind == "other":
        b = bytes([draw(u8.filter(lambda c: c & 0x7f not in (0x70, 0x71, 0x72, 0x73)))]) + draw(raw(0, 254))
    else:
        b = draw(st.one_of(raw(0, 255), desc_sense.flatmap(lambda d: st.tuples(st.integers(0, len(d)), u8).map(lambda t: d[:t[0]] + bytes([t[1]]) + d[t[0] + 1:])),
                           st.tuples(st.sampled_from([0x72, 0x73]), page_bytes(6), u8, raw(0, 247)).map(lambda t: bytes([t[0]]) + t[1] + bytes([t[2]]) + t[3])))
    p = draw(st.sampled_from(PLATFORMS))
    if kind == "any" and p == "direct":
        p = "linux_sg"
    return dict(sense=b.hex(), platform=p)


def strategy():
    return case()


def fixed():
    for i in range(17 * 8):
        for head in (0x70, 0xf1):
            b = bytearray(18)
            b[0] = head
            b[1 + i // 8] |= 1 << i % 8
            yield dict(sense=bytes(b).hex(), platform=PLATFORMS[i % 7])
    for i in range(6 * 8):
        for head in (0x72, 0xf3):
            for tail in ("00", "0c000a80001122334455667788", "06020401020304", "140203aabbcc" + "000a00ff8877665544332211" + "0900" + "00"):
                b = bytearray([head, 0, 0, 0, 0, 0, 0])
                b[1 + i // 8] |= 1 << i % 8
                t = bytes.fromhex(tail)
                t = bytes([len(t) - 1]) + t[1:]
                if tail.startswith("14"):
                    t = bytes([19]) + t[1:20]
                yield dict(sense=(bytes(b) + t).hex(), platform=PLATFORMS[i % 7])
    for code in range(256):
        if code & 0x7f not in (0x70, 0x71, 0x72, 0x73):
            yield dict(sense=bytes([code, 1, 2, 3, 4, 5, 6, 7, 8] + [0] * 20).hex(), platform=PLATFORMS[code % 7])


def decode_descriptors(d):
    """List of descriptors, or None when the list is malformed."""
    n = d[7]
    pos, out = 8, []
    if 8 + n > len(d) or n > 244:
        return None
    while pos < 8 + n:
        if pos + 2 > 8 + n or pos + 2 + d[pos + 1] > 8 + n:
            return None
        t, size = d[pos], d[pos + 1]
        if t == 0:
            if size != 0x0a:
                return None
            out.append(dict(descriptor_type=0, valid=bits(d, pos + 2, 7, 1), information=Bytes(d[pos + 4:pos + 12])))
        else:
            out.append(dict(descriptor_type=t, data=Bytes(d[pos + 2:pos + 2 + size])))
        pos += 2 + size
    return out


def reference(d):
    if len(d) == 0:
        return None
    code = d[0] & 0x7f
    head = dict(code=code, valid=d[0] >> 7)
    if code in (0x70, 0x71) and len(d) >= 18:
        return dict(response_code=head, filemark=bits(d, 2, 7, 1), eom=bits(d, 2, 6, 1), ili=bits(d, 2, 5, 1), sense_key=KEYS[d[2] & 15], information=be(d, 3, 4),
                    additional_sense_length=d[7], command_specific_information=be(d, 8, 4), additional_sense_code=dict(code=d[12], qualifier=d[13]),
                    field_replaceable_unit_code=d[14], sksv=d[15] >> 7, sense_key_specific_high=d[15] & 0x7f, sense_key_specific_low=d[16])
    if code in (0x72, 0x73) and len(d) >= 8:
        lst = decode_descriptors(d)
        if lst is None:
            return None
        return dict(response_code=head, sense_key=KEYS[d[1] & 15], additional_sense_code=dict(code=d[2], qualifier=d[3]), descriptors=lst)
    return None


def judge(c, run):
    sense = bytes.fromhex(c["sense"])
    direct = c["platform"] == "direct"
    seen = sense if direct else (sense + bytes(255 - len(sense)))[:255]
    want = reference(seen)
    shape = shape_of(want) if want else shape_of(dict(sense_key="", additional_sense_code=dict(code=0, qualifier=0), information=0, descriptors=[]))
    obs = run("sense_error", sense=c["sense"], shape=shape, platform=c["platform"], direct=direct)
    what = "%s sense %s" % (c["platform"], c["sense"])
    if not direct:
        expect("error" in obs, "%s: the failed command returned", what)
        expect(X.has(obs["error"], "AsiCheckConditionError"), "%s: raised %s", what, brief(obs["error"]))
        X.sense_ok(obs["error"], c["sense"], what)
    elif want is not None:
        expect("error" not in obs, "%s: decoding raised %s", what, brief(obs.get("error")))
    if want is not None:
        expect(obs["obj"] is not None, "%s: not decoded", what)
        d = diff(want, obs["obj"])
        expect(d is None, "%s: %s", what, d)
        expect("repr_error" not in obs, "%s: formatting it raised %s", what, brief(obs.get("repr_error")))
    kind = "malformed" if want is None else "descriptor" if "descriptors" in want else "fixed"
    if seen and seen[0] & 0x7f not in (0x70, 0x71, 0x72, 0x73):
        kind = "unrecognised"
        if not direct or "error" not in obs:
            expect(obs["obj"] is None or all("$missing" in str(v) for v in obs["obj"].values()), "%s: not a known format, decoded to %s", what, brief(obs["obj"]))
    return [kind, c["platform"]], want is not None and any(sense[1:])
