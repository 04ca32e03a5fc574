from hypothesis import strategies as st
from ..core import expect, brief, diff, shape_of
from ..gen import u8, u32
from ..replies import R, page_bytes, hexed, KNOWN_VPD
from .. import ses
from .p15 import conf_of

ID = "P20"
QUICK, THOROUGH = 3000, 60000
TECHNIQUE = "property-based testing against the standards' page assignments and reference decoders, all 512 page codes enumerated"
RULE = ("A case looks up one to six pages by code (VPD and diagnostic, by command lookup, by data lookup or by class name), builds all of them, and then runs them in any order against "
        "well-formed replies; each must request its own page and decode with the decoder of that page, whichever were looked up before. Non-trivial when at least two pages or a page without a dedicated decoder is used.")

VPD = {0x00: "vpd_supported", 0x80: "vpd_serial", 0x83: "vpd_devid", 0x89: "vpd_ata", 0xb0: "vpd_block_limits", 0xb2: "vpd_lbp", 0xc0: "vpd_veritas"}
SES = {0x00: "ses_supported", 0x01: "ses_conf", 0x80: "ses_vendor80"}
CLASSES = {("vpd", 0x00): "SupportedVPDPagesCommand", ("vpd", 0x80): "UnitSerialNumberVPDPageCommand", ("vpd", 0x83): "DeviceIdentificationVPDPageCommand",
           ("vpd", 0x89): "AtaInformationVPDPageCommand", ("vpd", 0xb0): "BlockLimitsPageCommand", ("vpd", 0xb2): "LogicalBlockProvisioningPageCommand",
           ("vpd", 0xc0): "VeritasVPDPageCommand", ("ses", 0x00): "SupportedDiagnosticPagesCommand", ("ses", 0x01): "ConfigurationDiagnosticPagesCommand",
           ("ses", 0x02): "EnclosureStatusDiagnosticPagesCommand", ("ses", 0x07): "ElementDescriptorDiagnosticPagesCommand", ("ses", 0x80): "Vendor0x80DiagnosticPagesCommand"}


def reply_fields(family, code, conf):
    if family == "vpd":
        name = VPD.get(code)
        if name:
            return R[name].strategy.map(lambda f: dict(kind=name, f=f))
        return st.fixed_dictionaries(dict(p=u8, code=st.just(code), body=hexed(page_bytes(0, 60)))).map(lambda f: dict(kind="vpd_unknown", f=f))
    if code == 2:
        return st.fixed_dictionaries(dict(b1=u8, gen=u32, status=hexed(page_bytes(4, 40)))).map(lambda f: dict(kind="ses_status", f=f))
    if code == 7:
        return st.fixed_dictionaries(dict(b1=u8, gen=u32, rsvd=st.just(0), texts=st.lists(hexed(page_bytes(0, 20)), min_size=1, max_size=5))).map(lambda f: dict(kind="ses_desc", f=f))
    if code == 1:
        return ses.configuration(small=True).map(lambda f: dict(kind="ses_conf", f=f))
    if code in SES:
        return R[SES[code]].strategy.map(lambda f: dict(kind=SES[code], f=f))
    return st.fixed_dictionaries(dict(code=st.just(code), b1=u8, data=hexed(page_bytes(0, 60)))).map(lambda f: dict(kind="ses_unknown", f=f))


@st.composite
def case(draw):
    conf = draw(st.lists(st.tuples(ses.etype, st.integers(0, 3)), min_size=0, max_size=3).map(conf_of))
    items = []
    for i in range(draw(st.integers(1, 6))):
        family = draw(st.sampled_from(["vpd", "ses"]))
        code = draw(st.one_of(u8, st.sampled_from(sorted(VPD) if family == "vpd" else [0, 1, 2, 7, 0x80]), st.sampled_from([x["code"] for x in items] or [0x86])))
        via = draw(st.sampled_from(["get", "get", "data", "class"]))
        items.append(dict(draw(reply_fields(family, code, conf)), family=family, code=code, via=via))
    return dict(conf=conf, items=items, order=draw(st.permutations(range(len(items)))), staged=draw(st.integers(0, 1)))


def strategy():
    return case()


def fixed():
    conf = conf_of([(0x17, 2), (0x02, 1)])
    for code in range(256):
        for via in ("get", "data", "class"):
            items = []
            for family in ("vpd", "ses"):
                if family == "vpd" and code in VPD or family == "ses" and code in (0, 1, 2, 7, 0x80):
                    continue
                f = dict(p=0, code=code, body=bytes(range(1, 20)).hex()) if family == "vpd" else dict(code=code, b1=0x5a, data=bytes(range(1, 20)).hex())
                items.append(dict(kind=family + "_unknown", f=f, family=family, code=code, via=via))
            if items:
                yield dict(conf=conf, items=items, order=list(range(len(items))), staged=code & 1)


def judge(c, run):
    items, wants, datas = [], [], []
    for it in c["items"]:
        f = it["f"]
        if it["kind"] in ("ses_status", "ses_desc"):
            f = dict(f, conf=c["conf"])
            build, exp = (ses.status_build, ses.status_expect) if it["kind"] == "ses_status" else (ses.descriptor_build, ses.descriptor_expect)
            data, want = build(f), exp(f)
        else:
            data = R[it["kind"]].build(f)
            want = R[it["kind"]].expect(f, data)
        key = (it["family"], it["code"])
        name = CLASSES.get(key) or ("UnknownVPDPageCommand" if it["family"] == "vpd" else "UnknownDiagnosticPageCommand")
        items.append(dict(family=it["family"], code=it["code"], via=it["via"], name=name, code_arg=int(key not in CLASSES), conf=int(it["kind"] in ("ses_status", "ses_desc")), data=data.hex(), shape=shape_of(want)))
        wants.append(want)
        datas.append(data)
    obs = run("pages", items=items, order=list(c["order"]), staged=c.get("staged", 0), conf=ses.conf_build(c["conf"]).hex())
    for i, (it, want, data, o) in enumerate(zip(c["items"], wants, datas, obs)):
        what = "%s page %02Xh via %s (lookup %d of %s), reply %s" % (it["family"], it["code"], it["via"], i, ["%s:%02x:%s" % (x["family"], x["code"], x["via"]) for x in c["items"]], brief(data.hex(), 200))
        expect("build_error" not in o, "%s: construction raised %s", what, brief(o.get("build_error")))
        if it["via"] != "data":
            expect(len(o["requests"]) == 1, "%s: %d requests", what, len(o["requests"]))
            cdb = bytes.fromhex(o["requests"][0]["cdb"])
            head = (b"\x12\x01" if it["family"] == "vpd" else b"\x1c\x01") + bytes([it["code"]])
            expect(len(cdb) == 6 and cdb[:3] == head and cdb[5] == 0, "%s: descriptor block %s does not request the page", what, cdb.hex())
            expect(int.from_bytes(cdb[3:5], "big") >= len(data), "%s: descriptor block %s asks for less than the page", what, cdb.hex())
        expect("error" not in o, "%s: decoding raised %s", what, brief(o.get("error")))
        d = diff(want, o["result"])
        expect(d is None, "%s: %s", what, d)
    unknown = any(it["kind"].endswith("_unknown") for it in c["items"])
    return ["unknown" if unknown else "known", "items%d" % len(c["items"])], unknown or len(c["items"]) > 1
