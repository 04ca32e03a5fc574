from hypothesis import strategies as st
from ..core import expect, brief
from ..gen import raw, u8, u16, u32, u64, nbits, bit
from ..replies import page_bytes, hexed, ascii_bytes, naa_ident
from .p15 import conf_of
from .. import ses

ID = "P21"
QUICK, THOROUGH = 6000, 120000
TECHNIQUE = "round-trip property testing: canonical bytes from a reference encoder are parsed, packed, parsed, rebuilt from values and changed"
RULE = ("A case is two canonical byte strings of one structure (reserved bits zero, text padded as the standard says): packing the parsed first must reproduce it, parsing that must give the same values, and "
        "an object built from the second's values, or the first changed to them, must pack to the second with its own computed lengths. Non-trivial when the two differ and have content.")
NOTE = "Only structures the library can build are covered; reserved or unmodelled bytes are zero in canonical replies, and zero bytes that end a structure may be left out."

C = "infi.asi.cdb."
V = C + "inquiry.vpd_pages."
T = {}


def struct(name, cls, strategy, **kw):
    T[name] = dict(kw, cls=cls, strategy=hexed(strategy))


def masked(mask):
    m = bytes.fromhex(mask.replace(" ", ""))
    return page_bytes(len(m)).map(lambda b: bytes(x & y for x, y in zip(b, m)))


def cat(*parts):
    return st.tuples(*[st.just(p) if isinstance(p, bytes) else p for p in parts]).map(b"".join)


def lead(make_head, body):
    return body.map(lambda b: make_head(len(b)) + b)


def word(lo, hi):
    """ASCII without padding at either end."""
    return ascii_bytes(lo, hi, nul=False).map(lambda b: b.replace(b" ", b"_"))


def padded(n):
    return word(0, n).map(lambda b: b + b" " * (n - len(b)))


def vpd(code, body, first=u8, low=False):
    return st.tuples(first, body).map(lambda t: bytes([t[0], code]) + len(t[1]).to_bytes(2, "big") + t[1])


# standard INQUIRY data: 36 bytes and nothing more, or with a vendor specific part
STD = masked("ff c0 ff 3f")
CAPS = masked("f9 51 32")
NAMES = st.tuples(padded(8), padded(16), padded(4)).map(b"".join)


def extension(n):
    if n <= 20:
        return page_bytes(n)
    parts = [page_bytes(20), masked("0f")]
    if n == 21:
        return cat(*parts)
    parts += [b"\0", page_bytes(min(n, 38) - 22)]
    if n > 60:
        parts += [bytes(22), page_bytes(n - 60)]
    return cat(*parts)


struct("inquiry", C + "inquiry.standard:StandardInquiryDataBuffer",
       st.one_of(st.just(0), st.sampled_from([0, 1, 19, 20, 21, 24, 26, 30, 38, 61, 62, 100, 224]), st.integers(61, 224)).flatmap(
           lambda n: st.tuples(STD, CAPS, NAMES, extension(n)).map(lambda t: t[0] + bytes([31 + len(t[3])]) + t[1] + t[2] + t[3])), skip=["additional_length"])

struct("vpd_supported", V + "supported_pages:SupportedVPDPagesBuffer", vpd(0, page_bytes(0, 248)), fixed=["vpd_parameters", "page_length"])
struct("vpd_serial", V + "unit_serial_number:UnitSerialNumberVPDPageBuffer", vpd(0x80, word(0, 248)), skip=["page_length"])
struct("vpd_unknown", V + "unknown:UnknownVPDPageBuffer", st.tuples(u8, u8, st.one_of(page_bytes(0, 40), page_bytes(0, 2044))).map(lambda t: bytes([t[0], t[1]]) + len(t[2]).to_bytes(2, "big") + t[2]), skip=["page_length"])
struct("vpd_block_limits", V + "block_limits:BlockLimitsVPDPageBuffer", st.tuples(u8, masked("01" + "ff" * 39)).map(lambda t: bytes([t[0], 0xb0, 0, 0x3c]) + t[1] + bytes(20)), tail=1)
struct("vpd_veritas", V + "veritas:VeritasVPDPageBuffer", vpd(0xc0, masked("7f ff")), tail=1)


def desig(t, ident, rsvd=u8):
    return st.tuples(u8, u8, rsvd, ident).map(lambda x: bytes([x[0], x[1] & 0xb0 | t, x[2], len(x[3])]) + x[3])


def naa(n):
    return naa_ident(n).map(bytes.fromhex)


D = V + "designators:"
port = masked("00 00 ff ff")
KINDS = dict(
    VendorSpecificDesignator=(desig(0, page_bytes(0, 251)), 1), T10VendorIDDesignator=(desig(1, cat(padded(8), page_bytes(0, 243))), 1), EUI64_Designator=(desig(2, page_bytes(8)), 0),
    EUI64_12Byte_Designator=(desig(2, page_bytes(12)), 0), EUI64_16Byte_Designator=(desig(2, page_bytes(16)), 0), NAA_IEEE_Extended_Designator=(desig(3, naa(2)), 0),
    NAA_Locally_Assigned_Designator=(desig(3, naa(3)), 0), NAA_IEEE_Registered_Designator=(desig(3, naa(5)), 0), NAA_IEEE_Registered_Extended_Designator=(desig(3, naa(6)), 0),
    RelativeTargetPortDesignator=(desig(4, port), 0), TargetPortGroupDesignator=(desig(5, port), 0), LogicalUnitGroupDesignator=(desig(6, port), 0),
    MD5LogicalUnitDesignator=(desig(7, page_bytes(16)), 1), SCSINameDesignator=(desig(8, page_bytes(0, 251)), 1), Reserved_Designator=(st.integers(9, 15).flatmap(lambda t: desig(t, page_bytes(0, 251))), 1))
for _n, (_s, _c) in KINDS.items():
    struct(_n, D + _n, _s, skip=["designator_length"] if _c else [])


def short(s):
    return s.filter(lambda b: len(b) <= 80)


any_designator = st.sampled_from(sorted(KINDS)).flatmap(lambda k: short(KINDS[k][0]) if k in ("VendorSpecificDesignator", "T10VendorIDDesignator", "SCSINameDesignator", "Reserved_Designator") else KINDS[k][0])
struct("vpd_devid", V + "device_identification:DeviceIdentificationVPDPageBuffer", vpd(0x83, st.lists(any_designator, max_size=8).map(b"".join)))
struct("vpd_lbp", V + "logical_block_provisioning:LogicalBlockProvisioningVPDPageBuffer",
       st.one_of(vpd(0xb2, masked("ff e7 07 00")), vpd(0xb2, cat(masked("ff e7 07 00"), any_designator))), tail=1)

struct("transport_id", C + "persist.transport:TransportId", cat(masked("cf"), page_bytes(0, 60)))
P = C + "persist.input:"
struct("pr_keys", P + "PersistentReserveInReadKeysResponse", st.tuples(u32, st.lists(raw(8), max_size=40)).map(lambda t: t[0].to_bytes(4, "big") + (8 * len(t[1])).to_bytes(4, "big") + b"".join(t[1])))
struct("pr_resv", P + "PersistentReserveInReadReservationResponse", st.tuples(u32, page_bytes(16)).map(lambda t: t[0].to_bytes(4, "big") + b"\0\0\0\x10" + t[1]))
struct("pr_caps", P + "PersistentReserveInReportCapabilitiesResponse", cat(b"\0\x08", masked("ff ff ea 01 ff ff")))
full = st.tuples(masked("ff" * 8 + "00000000 03 ff 00000000 ffff"), cat(masked("cf"), page_bytes(23, 60))).map(lambda t: t[0] + len(t[1]).to_bytes(4, "big") + t[1])
struct("pr_full_descriptor", P + "PersistentReserveInReadFullStatusDescriptor", full)
struct("pr_full", P + "PersistentReserveInReadFullStatusResponse", st.tuples(u32, st.lists(full, max_size=5).map(b"".join)).map(lambda t: t[0].to_bytes(4, "big") + len(t[1]).to_bytes(4, "big") + t[1]))

port4 = masked("0000 ffff")
tpg = st.tuples(masked("8f df ffff 00 ff 00"), st.one_of(st.lists(port4, max_size=5), st.lists(port4, min_size=100, max_size=130))).map(lambda t: t[0] + bytes([len(t[1])]) + b"".join(t[1]))
struct("tpg", C + "rtpg:TargetPortGroupDescriptor", tpg)
struct("rtpg", C + "rtpg:TargetPortGroupLengthOnlyResponse", lead(lambda n: n.to_bytes(4, "big"), st.lists(tpg, max_size=4).map(b"".join)))
struct("rtpg_ext", C + "rtpg:TargetPortGroupExtendedResponse", lead(lambda n: n.to_bytes(4, "big"), cat(masked("70 00 00 00"), st.lists(tpg, max_size=4).map(b"".join))))
struct("rcop", C + "receive_copy_operating_parameters:ReceiveCopyOperatingParametersResponse",
       st.tuples(masked("ffffffff 01 000000" + "ff" * 24 + "0000 ffff ff ff ff ff 000000"), page_bytes(0, 255)).map(lambda t: t[0] + bytes([len(t[1])]) + t[1]), skip=["implemented_descriptor_list_length"])

CONF = st.lists(st.tuples(masked("77 ff"), page_bytes(8), NAMES, st.one_of(st.just(b""), page_bytes(0, 60)), st.lists(st.tuples(u8, u8, u8, word(0, 30)), max_size=4)), min_size=1, max_size=3)


def conf_bytes(t):
    gen, encs = t
    heads = [h for e in encs for h in e[4]]
    body = b"".join(e[0] + bytes([len(e[4]), 36 + len(e[3])]) + e[1] + e[2] + e[3] for e in encs) + b"".join(bytes([h[0], h[1], h[2], len(h[3])]) for h in heads) + b"".join(h[3] for h in heads)
    return bytes([1, len(encs) - 1]) + (len(body) + 4).to_bytes(2, "big") + gen.to_bytes(4, "big") + body


S = C + "diagnostic.ses_pages."
struct("ses_conf", S + "configuration:ConfigurationDiagnosticPagesData", st.tuples(u32, CONF).map(conf_bytes), skip=["page_length"], kwargs={"conf_page": None})
for _n, _m, _k, _l in (("ses_supported", "supported_pages:SupportedDiagnosticPagesData", 0, 1), ("ses_vendor80", "vendor_0x80:Vendor0x80DiagnosticPagesData", 0x80, 0)):
    struct(_n, S + _m, lead(lambda n, k=_k: bytes([k, 0]) + n.to_bytes(2, "big"), page_bytes(_l, 200)), kwargs={"conf_page": None})
struct("ses_unknown", S + "unknown:UnknownDiagnosticPageData", st.tuples(u8, page_bytes(0, 200)).map(lambda t: bytes([t[0], 0]) + len(t[1]).to_bytes(2, "big") + t[1]), kwargs={"conf_page": None})

N = "infi.asi.sense:"
struct("sense_fixed", N + "SCSISenseDataFixed", masked("ff 00 ef" + "ff" * 14),
       attrs=["response_code", "sense_key", "ili", "eom", "filemark", "information", "additional_sense_length", "command_specific_information", "additional_sense_code", "field_replaceable_unit_code",
              "sense_key_specific_high", "sksv", "sense_key_specific_low"])
info_desc = st.tuples(bit, page_bytes(8)).map(lambda t: bytes([0, 0x0a, t[0] << 7, 0]) + t[1])
other_desc = st.tuples(st.integers(1, 255), page_bytes(0, 28)).map(lambda t: bytes([t[0], len(t[1])]) + t[1])
struct("sense_desc", N + "SCSISenseDataDescriptorBased",
       cat(masked("ff 0f ff ff 00 00 00"), lead(lambda n: bytes([n]), st.lists(st.one_of(info_desc, other_desc), max_size=7).map(b"".join))),
       attrs=["response_code", "sense_key", "additional_sense_code", "descriptors"])
struct("sense_info", N + "SCSISenseDataDescriptorInformation", info_desc, attrs=["valid", "information"])
struct("sense_other", N + "SCSISenseDataGenericDescriptor", st.tuples(u8, page_bytes(0, 255)).map(lambda t: bytes([t[0], len(t[1])]) + t[1]), attrs=["descriptor_type", "data"])
struct("rc10", C + "read_capacity:ReportReadCapacityData10", page_bytes(8), attrs=["last_logical_block_address", "block_length_in_bytes"])
struct("rc16", C + "read_capacity:ReportReadCapacityData16", masked("ff" * 12 + "0f ff ff ff" + "00" * 16),
       attrs=["last_logical_block_address", "block_length_in_bytes", "prot_en", "p_type", "logical_blocks_per_physical_block", "p_i_exponent", "lowest_aligned_lba_msb", "troz", "tpe", "lowest_aligned_lba_lsb"])


def strategy():
    return st.sampled_from(sorted(T)).flatmap(lambda n: st.fixed_dictionaries(dict(name=st.just(n), a=T[n]["strategy"], b=T[n]["strategy"])))


def same(got, want, tail):
    """`want` itself or, where allowed, with zero bytes at its end left out."""
    if not isinstance(got, str):
        return False
    return got == want or tail and want.startswith(got) and not any(bytes.fromhex(want[len(got):]))


def judge(c, run):
    t = T[c["name"]]
    obs = run("repack", cls=t["cls"], first=c["a"], second=c["b"], skip=t.get("skip", []), attrs=t.get("attrs"), kwargs=t.get("kwargs"))
    what = "%s %s" % (c["name"], brief(c["a"], 500))
    expect("parse" not in obs, "%s: parsing raised %s", what, brief(obs.get("parse")))
    tail = t.get("tail")
    expect(same(obs["packed"], c["a"], tail), "%s: packing the parsed reply gives %s", what, brief(obs["packed"], 500))
    expect(obs["again"] == obs["values"], "%s: values %s, after packing and parsing %s", what, brief(obs["values"], 500), brief(obs.get("again"), 500))
    expect(same(obs["twice"], c["a"], tail), "%s: packing it twice gives %s", what, brief(obs.get("twice"), 500))
    expect(same(obs["built"], c["b"], tail), "%s: an object built with the values of %s packs to %s", what, c["b"], brief(obs["built"], 500))
    expect(same(obs["changed"], c["b"], tail), "%s: changed to the values of %s it packs to %s", what, c["b"], brief(obs["changed"], 500))
    return [c["name"]], c["a"] != c["b"] and any(bytes.fromhex(c["b"]))
