"""SES pages (SES-3): generators of enclosure configurations and matching pages, and reference decoders."""
from hypothesis import strategies as st
from .core import Bytes, Text, Pred, AbsentOrEmpty
from .gen import raw, ints, u8, u16, u32, nbits
from .replies import be, bits, page_bytes, ascii_bytes, hexed, unhex, Reply

S = "infi.asi.cdb.diagnostic.ses_pages:"


def ses_cmd(code):
    return {"cls": S + "get_ses_page", "args": [code], "factory": True}


def exactly(raw_bytes):
    """Text fields of the configuration page hold raw bytes."""
    b = Bytes(raw_bytes)
    t = Text(raw_bytes)
    return Pred(lambda o: b.test(o) or t.test(o) or (not raw_bytes and o is None), b.desc)


# ------------------------------------------------------------------ configuration page (01h), SES-3 6.1.2

KNOWN_TYPES = list(range(0x00, 0x1A)) + [0x9E]
etype = st.one_of(st.sampled_from(KNOWN_TYPES), st.sampled_from(KNOWN_TYPES), st.sampled_from(KNOWN_TYPES), u8)
count = st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(0, 4), st.sampled_from([0, 1, 127, 128, 200, 255]), u8)


@st.composite
def enclosure(draw, headers):
    n = draw(st.one_of(st.just(0), st.integers(0, 40), st.sampled_from([4, 91, 92, 216, 219])))      # vendor specific bytes
    return dict(b0=draw(u8), sub=draw(u8), logical=draw(page_bytes(8)).hex(), vendor=draw(ascii_bytes(8)).hex(), product=draw(ascii_bytes(16)).hex(),
                rev=draw(ascii_bytes(4)).hex(), info=draw(page_bytes(n)).hex(), headers=headers)


@st.composite
def configuration(draw, small=False):
    few = st.integers(0, 3)
    n_enc = draw(few if small else st.one_of(few, few, st.sampled_from([0, 7, 126, 127, 128, 130])))
    encs = []
    heads = []
    for i in range(min(n_enc, 6)):
        k = draw(st.integers(0, 4))
        encs.append(draw(enclosure(k)))
    k = draw(st.integers(0, 6) if small else st.one_of(st.integers(0, 6), st.integers(0, 6), st.sampled_from([127, 128, 129, 255])))
    encs.append(draw(enclosure(k)))
    if n_enc > 6:
        encs = encs[:-1] + [dict(encs[i % 6], headers=0) for i in range(n_enc - 6)] + encs[-1:]
    total = sum(e["headers"] for e in encs)
    text = st.one_of(st.integers(0, 20), st.integers(0, 20), st.sampled_from([0, 127, 128, 255]))
    tail = None
    for i in range(total):
        if i < 10:
            tl = draw(text)
            heads.append(dict(type=draw(etype), n=draw(count), sub=draw(u8), text=draw(st.one_of(ascii_bytes(tl), page_bytes(tl))).hex()))
        else:
            heads.append(dict(heads[i % 10], type=(heads[i % 10]["type"] + i) % 0x1A, sub=i % 256))
    return dict(encs=encs, heads=heads, gen=draw(u32))


def conf_build(f):
    body = b""
    for e in f["encs"]:
        info = unhex(e["info"])
        body += bytes([e["b0"], e["sub"], e["headers"], 36 + len(info)]) + unhex(e["logical"]) + unhex(e["vendor"]) + unhex(e["product"]) + unhex(e["rev"]) + info
    for h in f["heads"]:
        body += bytes([h["type"], h["n"], h["sub"], len(unhex(h["text"]))])
    for h in f["heads"]:
        body += unhex(h["text"])
    return bytes([0x01, len(f["encs"]) - 1]) + (len(body) + 4).to_bytes(2, "big") + f["gen"].to_bytes(4, "big") + body


def conf_expect(f, d):
    encs = []
    for e in f["encs"]:
        info = unhex(e["info"])
        encs.append(dict(relative_enclosure_services_process_identifier=(e["b0"] >> 4) & 7, enclosure_services_processes_num=e["b0"] & 7, subenclosure_identifier=e["sub"],
                         type_descriptor_headers_num=e["headers"], enclosure_descriptor_length=36 + len(info), enclosure_logical_identifier=Bytes(unhex(e["logical"])),
                         enclosure_vendor_identification=Text(unhex(e["vendor"])), product_identification=Text(unhex(e["product"])), product_revision_level=Text(unhex(e["rev"])),
                         vendor_specific_enclosure_information=Bytes(info) if info else AbsentOrEmpty()))
    return dict(page_code=1, secondary_subenclosures_num=len(encs) - 1, page_length=be(d, 2, 2), generation_code=f["gen"], enclosure_descriptor_list=encs,
                type_descriptor_header_list=[dict(element_type=h["type"], possible_elements_num=h["n"], subenclosure_identifier=h["sub"],
                                                  type_descriptor_text_length=len(unhex(h["text"]))) for h in f["heads"]],
                type_descriptor_text_list=[exactly(unhex(h["text"])) for h in f["heads"]])


Reply("ses_conf", configuration(), conf_build, conf_expect, lambda f: ses_cmd(1))


# ------------------------------------------------------------------ supported (00h), vendor (80h) and unknown pages

def page(code, byte1, payload):
    return bytes([code, byte1]) + len(payload).to_bytes(2, "big") + payload


def flat(name, code, attr, top, low=0):
    Reply(name, st.fixed_dictionaries(dict(b1=u8, data=hexed(st.one_of(page_bytes(low, 40), page_bytes(low, top), page_bytes(top - 1, top))))),
          lambda f: page(code, f["b1"], unhex(f["data"])),
          lambda f, d: {"page_code": code, "page_length": len(f["data"]) // 2, attr: list(unhex(f["data"]))}, lambda f: ses_cmd(code))


flat("ses_supported", 0x00, "supported_pages", 251, 1)
flat("ses_vendor80", 0x80, "vendor_specific", 251)

DEDICATED = (0x00, 0x01, 0x02, 0x07, 0x80)


def unknown_payload(f):
    a, b = Bytes(unhex(f["data"])), Bytes(page(f["code"], f["b1"], unhex(f["data"]))[1:])
    return Pred(lambda o: a.test(o) or b.test(o) or (not f["data"] and o is None), a.desc)


Reply("ses_unknown", st.fixed_dictionaries(dict(code=u8.filter(lambda c: c not in DEDICATED), b1=u8, data=hexed(st.one_of(page_bytes(0, 40), page_bytes(0, 2044), page_bytes(2040, 2044))))),
      lambda f: page(f["code"], f["b1"], unhex(f["data"])), lambda f, d: dict(page_code=f["code"], page_data=unknown_payload(f)), lambda f: ses_cmd(f["code"]))


# ------------------------------------------------------------------ element status, SES-3 7.3: name -> (byte, low bit, width); bytes 0..2 are status bytes 1..3

_ID = {"ident": (0, 7, 1)}
_IF = {"ident": (0, 7, 1), "fail": (0, 6, 1)}
_SLOT23 = {"app_client_bypassed_a": (1, 7, 1), "do_not_remove": (1, 6, 1), "encl_bypassed_a": (1, 5, 1), "encl_bypassed_b": (1, 4, 1), "ready_insert": (1, 3, 1), "rmv": (1, 2, 1),
           "ident": (1, 1, 1), "report": (1, 0, 1), "app_client_bypassed_b": (2, 7, 1), "fault_sensed": (2, 6, 1), "fault_reqstd": (2, 5, 1), "device_off": (2, 4, 1),
           "bypassed_a": (2, 3, 1), "bypassed_b": (2, 2, 1), "device_bypassed_a": (2, 1, 1), "device_bypassed_b": (2, 0, 1)}
_ONOFF = {"hot_swap": (2, 7, 1), "fail": (2, 6, 1), "reqstd_on": (2, 5, 1), "off": (2, 4, 1)}
B, W, SW = (8,), (16,), (-16,)
ELEMENTS = {
    0x01: dict(_SLOT23, slot_address=(0, 0, 8)),
    0x17: dict(_SLOT23, ok=(0, 7, 1), rsvd_device=(0, 6, 1), hot_spare=(0, 5, 1), cons_chk=(0, 4, 1), in_crit_array=(0, 3, 1), in_failed_array=(0, 2, 1), rebuild_remap=(0, 1, 1), rr_abort=(0, 0, 1)),
    0x02: dict(_ID, **dict(_ONOFF, dc_over_voltage=(1, 3, 1), dc_under_voltage=(1, 2, 1), dc_over_current=(1, 1, 1), overtmp_fail=(2, 3, 1), temp_warn=(2, 2, 1), ac_fail=(2, 1, 1), dc_fail=(2, 0, 1))),
    0x03: dict(_ID, **dict(_ONOFF, speed_code=(2, 0, 3), fan_speed="fan")),
    0x04: dict(_IF, temperature=(1, 0, 8), ot_fail=(2, 3, 1), ot_warn=(2, 2, 1), ut_fail=(2, 1, 1), ut_warn=(2, 0, 1)),
    0x05: dict(_IF, door_open=(2, 1, 1), unlocked=(2, 0, 1)),
    0x06: dict(_IF, rqst_mute=(2, 7, 1), muted=(2, 6, 1), remind=(2, 4, 1), tui_info=(2, 3, 1), tui_non_crit=(2, 2, 1), tui_crit=(2, 1, 1), tui_unrecov=(2, 0, 1)),
    0x07: dict(_IF, report=(1, 0, 1), hot_swap=(2, 7, 1)),
    0x08: dict(_IF, report=(1, 0, 1)),
    0x09: dict(_IF, size_mult=(0, 0, 2), cache_size="u16"),
    0x0A: dict(invop_type=(0, 6, 2), invop_bytes="u16"),
    0x0B: dict(battery_status=(0, 0, 8), ac_low=(1, 7, 1), ac_hi=(1, 6, 1), ac_qual=(1, 5, 1), ac_fail=(1, 4, 1), dc_fail=(1, 3, 1), ups_fail=(1, 2, 1), warn=(1, 1, 1), intf_fail=(1, 0, 1),
               ident=(2, 7, 1), fail=(2, 6, 1), batt_fail=(2, 1, 1), bpf=(2, 0, 1)),
    0x0C: dict(_IF, display_mode_status=(0, 0, 2), display_char_status="u16"),
    0x0D: dict(_IF),
    0x0E: dict(_ID, time_until_power_cycle=(1, 2, 6), failure_indication=(1, 1, 1), warn_indication=(1, 0, 1), requested_power_off_duration=(2, 2, 6), failure_requested=(2, 1, 1), warn_requested=(2, 0, 1)),
    0x0F: dict(_IF, report=(1, 0, 1), disabled=(2, 4, 1), lol=(2, 1, 1), xmit_fail=(2, 0, 1)),
    0x10: dict(_ID, language_code="u16"),
    0x11: dict(_IF, disabled=(2, 0, 1)),
    0x12: dict(_IF, warn_over=(0, 3, 1), warn_under=(0, 2, 1), crit_over=(0, 1, 1), crit_under=(0, 0, 1), voltage="s16"),
    0x13: dict(_IF, warn_over=(0, 3, 1), crit_over=(0, 1, 1), current="s16"),
    0x14: dict(_IF, report=(1, 0, 1), enabled=(2, 0, 1)),
    0x15: dict(_IF, report=(1, 0, 1), enabled=(2, 0, 1)),
    0x16: dict(_IF, short_enclosure_status=(2, 0, 8)),
    0x18: dict(_IF),
    0x19: dict(_ID, connector_type=(0, 0, 7), connector_phys_link=(1, 0, 8), fail=(2, 6, 1)),
}


def element_expect(etype, e):
    out = dict(element_status_code=bits(e, 0, 0, 4), swap=bits(e, 0, 4, 1), disabled=bits(e, 0, 5, 1), prdfail=bits(e, 0, 6, 1))
    layout = ELEMENTS.get(etype)
    b = e[1:4]
    if layout is None:
        out["status_info"] = dict(general=list(b))
        return out
    info = {}
    for name, where in layout.items():
        if where == "fan":
            info[name] = (b[0] & 7) << 8 | b[1]
        elif where == "u16":
            info[name] = be(b, 1, 2)
        elif where == "s16":
            info[name] = int.from_bytes(b[1:3], "big", signed=True)
        else:
            info[name] = bits(b, *where)
    out["status_info"] = info
    return out


def split_elements(f):
    """The element status bytes of a page, 4 per overall and individual element, generated as one string."""
    pos, out = 0, []
    data = unhex(f["status"])
    unit = data or b"\0"
    total = sum(1 + h["n"] for h in f["conf"]["heads"])
    flat_ = (unit * (4 * total // len(unit) + 1))[:4 * total]
    for h in f["conf"]["heads"]:
        group = [flat_[pos + 4 * i:pos + 4 * i + 4] for i in range(1 + h["n"])]
        pos += 4 * (1 + h["n"])
        out.append((h["type"], group))
    return out


def status_build(f):
    body = b"".join(b"".join(g) for _, g in split_elements(f))
    return bytes([0x02, f["b1"]]) + ((len(body) + 4) & 0xFFFF).to_bytes(2, "big") + f["gen"].to_bytes(4, "big") + body


def status_expect(f):
    groups = []
    for t, g in split_elements(f):
        groups.append(dict(overall_element=element_expect(None, g[0]), individual_elements=[element_expect(t, e) for e in g[1:]]))
    return dict(page_code=2, invop=f["b1"] >> 4 & 1, info=f["b1"] >> 3 & 1, non_crit=f["b1"] >> 2 & 1, crit=f["b1"] >> 1 & 1, unrecov=f["b1"] & 1,
                page_length=be(status_build(f), 2, 2), generation_code=f["gen"], status_descriptors=groups)


def descriptor_groups(f):
    pos, out = 0, []
    pool = [unhex(x) for x in f["texts"]] or [b""]
    for h in f["conf"]["heads"]:
        out.append([pool[(pos + i) % len(pool)] for i in range(1 + h["n"])])
        pos += 1 + h["n"]
    return out


def descriptor_build(f):
    body = b"".join(f["rsvd"].to_bytes(2, "big") + len(t).to_bytes(2, "big") + t for g in descriptor_groups(f) for t in g)
    return bytes([0x07, f["b1"]]) + ((len(body) + 4) & 0xFFFF).to_bytes(2, "big") + f["gen"].to_bytes(4, "big") + body


def descriptor_expect(f):
    def one(t):
        return dict(descriptor_length=len(t), descriptor=Bytes(t) if t else AbsentOrEmpty())
    return dict(page_code=7, page_length=be(descriptor_build(f), 2, 2), generation_code=f["gen"],
                element_descriptors=[dict(overall_element=one(g[0]), individual_elements=[one(t) for t in g[1:]]) for g in descriptor_groups(f)])
