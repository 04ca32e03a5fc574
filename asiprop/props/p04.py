from hypothesis import strategies as st
from ..core import expect, brief, one_request, OneOf
from ..gen import ints, bit, nbits, u8, u16, u32, u64

ID = "P04"
QUICK, THOROUGH = 6000, 120000
RULE = ("A case is one non-block command (INQUIRY and every VPD page, TEST UNIT READY, READ CAPACITY, REPORT LUNS, RTPG, LOG SENSE, RECEIVE "
        "COPY OPERATING PARAMETERS, RECEIVE DIAGNOSTIC RESULTS, RESERVE/RELEASE) with generated arguments, compared with the standard's "
        "layout; non-trivial when some argument is non-zero.")


def be(v, n):
    return v.to_bytes(n, "big")


def ctl(a):
    return (a.get("vendor", 0) << 6) | (a.get("naca", 0) << 2)


# name -> (argument strategies, class, positional names, settable names, control class or None, encoder(args) -> (cdb, kind, length or data))
T = {}
CONTROL = dict(naca=st.sampled_from([0, 0, 0, 1]), vendor=st.sampled_from([0, 0, 0, 1, 2, 3]))
S_CTL = "infi.asi.cdb.control:Control"
B_CTL = "infi.asi.cdb.control:ControlBuffer"


def entry(name, cls, args, enc, sets=(), control=None, kw=(), factory=False):
    T[name] = dict(cls=cls, args=args, enc=enc, sets=sets, control=control, kw=kw, factory=factory)


INQ = "infi.asi.cdb.inquiry"
entry("std_inquiry", INQ + ".standard:StandardInquiryCommand", dict(page_code=u8, evpd=bit, allocation_length=u16),
      lambda a: (bytes([0x12, a["evpd"], a["page_code"]]) + be(a["allocation_length"], 2) + bytes([ctl(a)]), "read", a["allocation_length"]),
      kw=("page_code", "evpd", "allocation_length"), control=S_CTL)
entry("inquiry", INQ + ":InquiryCommand", dict(page_code=u8, evpd=bit, allocation_length=u16),
      lambda a: (bytes([0x12, a["evpd"], a["page_code"]]) + be(a["allocation_length"], 2) + bytes([ctl(a)]), "read", a["allocation_length"]),
      kw=("page_code", "evpd", "allocation_length"), control=S_CTL)
entry("evpd_inquiry", INQ + ".vpd_pages:EVPDInquiryCommand", dict(page_code=u8, allocation_length=u16),
      lambda a: (bytes([0x12, 1, a["page_code"]]) + be(a["allocation_length"], 2) + bytes([ctl(a)]), "read", a["allocation_length"]),
      kw=("page_code", "allocation_length"), control=S_CTL)
entry("vpd_page", INQ + ".vpd_pages:get_vpd_page", dict(page_code=u8),
      lambda a: (bytes([0x12, 1, a["page_code"]]) + be(a["$len"], 2) + bytes([ctl(a)]), "read", None), kw=("page_code",), factory=True, control=S_CTL)
entry("std_inquiry_default", INQ + ".standard:StandardInquiryCommand", {},
      lambda a: (bytes([0x12, 0, 0]) + be(a["$len"], 2) + bytes([ctl(a)]), "read", None), control=S_CTL)
entry("tur", "infi.asi.cdb.tur:TestUnitReadyCommand", {}, lambda a: (bytes([0, 0, 0, 0, 0, ctl(a)]), "read", 0), control=S_CTL)
entry("rc10", "infi.asi.cdb.read_capacity:ReadCapacity10Command", dict(logical_block_address=u32, pmi=bit),
      lambda a: (bytes([0x25, 0]) + be(a["logical_block_address"], 4) + bytes([0, 0, a["pmi"], ctl(a)]), "read", 8),
      kw=("logical_block_address", "pmi"), control=S_CTL)
entry("rc16", "infi.asi.cdb.read_capacity:ReadCapacity16Command", dict(logical_block_address=u64, pmi=bit),
      lambda a: (bytes([0x9E, 0x10]) + be(a["logical_block_address"], 8) + be(a["$len"], 4) + bytes([a["pmi"], ctl(a)]), "read", None),
      kw=("logical_block_address", "pmi"), control=S_CTL)
entry("report_luns", "infi.asi.cdb.report_luns:ReportLunsCommand", dict(select_report=u8, allocation_length=u32),
      lambda a: (bytes([0xA0, 0, a["select_report"], 0, 0, 0]) + be(a["allocation_length"], 4) + bytes([0, ctl(a)]), "read", a["allocation_length"]),
      kw=("select_report", "allocation_length"), control=S_CTL)
entry("rtpg", "infi.asi.cdb.rtpg:RTPGCommand", dict(parameter_data_format=bit, allocation_length=u32),
      lambda a: (bytes([0xA3, 0x0A | a["parameter_data_format"] << 5, 0, 0, 0, 0]) + be(a["allocation_length"], 4) + bytes([0, ctl(a)]), "read", a["allocation_length"]),
      kw=("parameter_data_format", "allocation_length"), control=S_CTL)
entry("rcop", "infi.asi.cdb.receive_copy_operating_parameters:ReceiveCopyOperatingParametersCommand", dict(allocation_length=u32, control=u8),
      lambda a: (bytes([0x84, 0x03]) + bytes(8) + be(a["allocation_length"], 4) + bytes([0, a["control"]]), "read", a["allocation_length"]),
      kw=("allocation_length", "control"))
entry("log_sense", "infi.asi.cdb.log_sense:LogSenseCommand",
      dict(page_code=nbits(6), subpage_code=u8, allocation_length=u16, pc=nbits(2), sp=bit, parameter_pointer=u16),
      lambda a: (bytes([0x4D, a["sp"], a["pc"] << 6 | a["page_code"], a["subpage_code"], 0]) + be(a["parameter_pointer"], 2) + be(a["allocation_length"], 2) + b"\0",
                 "read", a["allocation_length"]),
      kw=("page_code", "subpage_code", "allocation_length"), sets=("pc", "sp", "parameter_pointer"))
entry("log_sense_plain", "infi.asi.cdb.log_sense:LogSenseCommand", dict(page_code=nbits(6)),
      lambda a: (bytes([0x4D, 0, a["page_code"], 0, 0, 0, 0]) + be(a["$len"], 2) + b"\0", "read", None), kw=("page_code",))
entry("ses_page", "infi.asi.cdb.diagnostic.ses_pages:get_ses_page", dict(page_code=u8),
      lambda a: (bytes([0x1C, 1, a["page_code"]]) + be(a["$len"], 2) + b"\0", "read", None), kw=("page_code",), factory=True)
entry("recv_diag", "infi.asi.cdb.diagnostic.ses_pages:PCVReceiveDiagnosticResultCommand", dict(page_code=u8, allocation_length=u16),
      lambda a: (bytes([0x1C, 1, a["page_code"]]) + be(a["allocation_length"], 2) + b"\0", "read", a["allocation_length"]),
      kw=("page_code", "allocation_length"))
entry("recv_diag_plain", "infi.asi.cdb.diagnostic:ReceiveDiagnosticResultCommand", dict(page_code=u8, allocation_length=u16, pcv=bit),
      lambda a: (bytes([0x1C, a["pcv"], a["page_code"]]) + be(a["allocation_length"], 2) + b"\0", "read", a["allocation_length"]),
      kw=("page_code", "allocation_length", "pcv"))
for verb, op6, op10 in (("reserve", 0x16, 0x56), ("release", 0x17, 0x57)):
    mod = "infi.asi.cdb.%s:%s" % (verb, verb.capitalize())
    entry(verb + "6", mod + "6Command", {}, lambda a, op=op6: (bytes([op, 0, 0, 0, 0, ctl(a)]), "write", b""), control=B_CTL)

    def enc10(a, op=op10):
        i = a["third_party_device_id"]
        short = (bytes([op, 0x10, 0, i & 0xFF, 0, 0, 0, 0, 0, ctl(a)]), "write", b"")
        long = (bytes([op, 0x12, 0, 0, 0, 0, 0, 0, 8, ctl(a)]), "write", be(i, 8))
        if i == 0:
            return bytes([op, 0, 0, 0, 0, 0, 0, 0, 0, ctl(a)]), "write", b""
        return [short, long] if i == 255 else short if i < 255 else long
    entry(verb + "10", mod + "10Command", dict(third_party_device_id=st.one_of(u8, u64, st.sampled_from([0, 1, 254, 255, 256, (1 << 64) - 1]))), enc10,
          kw=("third_party_device_id",), control=B_CTL)

NAMES = sorted(T)


@st.composite
def case(draw):
    name = draw(st.sampled_from(NAMES))
    t = T[name]
    a = {k: draw(s) for k, s in sorted(t["args"].items())}
    if t["control"]:
        a.update({k: draw(s) for k, s in sorted(CONTROL.items())})
    return dict(name=name, a=a)


def strategy():
    return case()


def fixed():
    for code in range(256):
        yield dict(name="vpd_page", a=dict(page_code=code))
        yield dict(name="ses_page", a=dict(page_code=code))
    for name in NAMES:
        t = T[name]
        if t["control"]:
            for naca, vendor in ((1, 0), (0, 1), (0, 2), (1, 3)):
                a = {k: 0 for k in t["args"]}
                if name == "ses_page":
                    a["page_code"] = 1
                yield dict(name=name, a=dict(a, naca=naca, vendor=vendor))
    for v in range(0, 300):
        for verb in ("reserve10", "release10"):
            yield dict(name=verb, a=dict(third_party_device_id=v))
    for c in range(64):
        yield dict(name="log_sense_plain", a=dict(page_code=c))


def spec(c):
    t = T[c["name"]]
    a = c["a"]
    kwargs = {k: a[k] for k in t["kw"] if k in a}
    s = {"cls": t["cls"], "kwargs": kwargs, "set": {k: a[k] for k in t["sets"]}}
    if t["factory"]:
        s["factory"] = True
        s["args"] = [kwargs.pop("page_code")]
        if c["name"] == "ses_page" and a["page_code"] in (2, 7):
            s["fargs"] = [None]     # these take the configuration page; it is not used before the reply is decoded
    elif c["name"] in ("inquiry", "evpd_inquiry"):
        kwargs["result_class"] = {"$cls": "infi.asi.cdb.inquiry.vpd_pages.unknown:UnknownVPDPageBuffer"}
    elif c["name"] in ("recv_diag", "recv_diag_plain"):
        kwargs["result_class"] = {"$cls": "infi.asi.cdb.diagnostic.ses_pages:SupportedDiagnosticPagesData"}
        if c["name"] == "recv_diag_plain":
            kwargs["conf_page"] = None
    if t["control"] and (a.get("naca") or a.get("vendor")):
        s["set"]["control"] = {"$new": t["control"], "kwargs": dict(naca=a.get("naca", 0), vendor_specific=a.get("vendor", 0))}
    return s


def judge(c, run):
    t = T[c["name"]]
    obs = run("execute", cmd=spec(c), replies=[{"raise": "AsiSCSIError"}], shape=None)
    what = "%s %s" % (c["name"], brief(c["a"], 200))
    expect("build_error" not in obs, "%s: construction raised %s", what, brief(obs.get("build_error")))
    expect(len(obs["requests"]) == 1, "%s: %d requests (%s)", what, len(obs["requests"]), brief(obs.get("error")))
    req = obs["requests"][0]
    a = dict(c["a"])
    a["$len"] = req.get("len", 0)
    wants = t["enc"](a)
    if not isinstance(wants, list):
        wants = [wants]
    ok = False
    for cdb, kind, rest in wants:
        if req["cdb"] == cdb.hex() and req["kind"] == kind:
            if kind == "read":
                ok = ok or rest is None or req["len"] == rest
            else:
                ok = ok or req["data"] == {"len": len(rest), "hex": rest.hex()}
    expect(ok, "%s: sent %s, expected %s", what, brief(req), [(w[0].hex(), w[1], w[2].hex() if isinstance(w[2], bytes) else w[2]) for w in wants])
    return [c["name"]], any(c["a"].values())
