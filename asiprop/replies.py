"""Reply formats: generators of well-formed replies and reference decoders written from the standards.

R[name] = Reply: `strategy` gives JSON fields f, `build(f)` the reply bytes, `cmd(f)` the command that fetches it and
`expect(f, data)` what must be decoded from `data` (the part of the reply that reached the host)."""
from hypothesis import strategies as st
from .core import B, Pred, Text, Bytes, Absent, AbsentOrEmpty, OneOf
from .gen import raw, ints, bit, u8, u16, u32, u64, nbits

R = {}


class Reply:
    def __init__(self, name, strategy, build, expect, cmd, declares=True, conf=None, alloc=None, min_len=0, raw_cls=None):
        self.name, self.strategy, self.build, self.expect, self.cmd = name, strategy, build, expect, cmd
        self.declares = declares        # the reply carries its own length
        self.conf = conf
        self.min_len = min_len
        self.raw_cls = raw_cls
        R[name] = self


def be(d, a, n):
    return int.from_bytes(d[a:a + n], "big")


def bits(d, byte, low, width):
    return (d[byte] >> low) & ((1 << width) - 1)


def page_bytes(n, m=None):
    m = n if m is None else m

    def poke(t):
        size, fillb, pokes = t
        b = bytearray([fillb]) * size
        for pos, v in pokes:
            if size:
                b[pos % size] = v
        return bytes(b)
    sparse = st.tuples(st.integers(n, m), st.sampled_from([0, 0, 0, 0xFF, 0x20]),
                       st.lists(st.tuples(st.integers(0, 4095), st.one_of(st.sampled_from([1 << i for i in range(8)]), st.integers(0, 255))), max_size=6)).map(poke)
    return st.one_of(raw(n, m), raw(n, m), sparse)


def hexed(s):
    return s.map(lambda b: b.hex())


def fields(**kw):
    return st.fixed_dictionaries(kw)


def unhex(h):
    return bytes.fromhex(h)


ASCII = bytes(range(0x20, 0x7f))


def ascii_bytes(n, m=None, nul=True):
    m = n if m is None else m

    def make(t):
        size, data, style, cut = t
        b = bytes(ASCII[x % 95] for x in (data or b"\x21"))
        b = (b * (size // len(b) + 1))[:size]
        cut %= size + 1
        if style == 1:
            b = b[:cut] + b" " * (size - cut)
        elif style == 2:
            b = b[:cut] + b"\0" * (size - cut)
        elif style == 3:
            b = b" " * (size - cut) + b[:cut]
        return b
    return st.tuples(st.integers(n, m), st.binary(min_size=0, max_size=24), st.integers(0, 3 if nul else 1), st.integers(0, 300)).map(make)


def pdev(d):
    return {"type": bits(d, 0, 0, 5), "qualifier": bits(d, 0, 5, 3)}


INQ = "infi.asi.cdb.inquiry"


def vpd_cmd(code):
    return {"cls": INQ + ".vpd_pages:get_vpd_page", "args": [code], "factory": True}


# ------------------------------------------------------------------ standard INQUIRY (SPC-4 6.4.2, SPC-5)

def std_build(f):
    b = bytearray(unhex(f["body"]))
    b[8:36] = unhex(f["text"])
    b[4] = f["additional"]
    return bytes(b)


def std_expect(f, data):
    d = data
    out = {"peripheral_device": pdev(d), "cong": bits(d, 1, 6, 1), "rmb": bits(d, 1, 7, 1), "version": d[2], "response_data_format": bits(d, 3, 0, 4),
           "hisup": bits(d, 3, 4, 1), "normaca": bits(d, 3, 5, 1), "additional_length": d[4], "protect": bits(d, 5, 0, 1), "threepc": bits(d, 5, 3, 1),
           "tpgs": bits(d, 5, 4, 2), "acc": bits(d, 5, 6, 1), "sccs": bits(d, 5, 7, 1), "addr16": bits(d, 6, 0, 1), "multi_p": bits(d, 6, 4, 1),
           "enc_serv": bits(d, 6, 6, 1), "cmd_que": bits(d, 7, 1, 1), "sync": bits(d, 7, 4, 1), "wbus16": bits(d, 7, 5, 1),
           "t10_vendor_identification": Text(d[8:16]), "product_identification": Text(d[16:32]), "product_revision_level": Text(d[32:36])}
    ext = d[36:min(len(d), d[4] + 5)]
    sub = {"vendor_specific_1": None, "ius": None, "qas": None, "clocking": None, "version_descriptors": None, "vendor_specific_2": None}
    if not ext:
        def empty(o):
            return o is None or (isinstance(o, dict) and (o.get("$none") or all(v in (None, [], {"$b": ""}) or isinstance(v, dict) and "$missing" in v for v in o.values())))
        out["extended"] = Pred(empty, "absent", sub)
        return out
    e = {"vendor_specific_1": Bytes(ext[:20])}
    if len(ext) >= 21:
        e.update(ius=bits(ext, 20, 0, 1), qas=bits(ext, 20, 1, 1), clocking=bits(ext, 20, 2, 2))
    else:
        e.update(ius=Absent(), qas=Absent(), clocking=Absent())
    if len(ext) >= 24:
        e["version_descriptors"] = [be(ext, 22 + 2 * i, 2) for i in range(min(8, (len(ext) - 22) // 2))]
    else:
        e["version_descriptors"] = AbsentOrEmpty()
    e["vendor_specific_2"] = Bytes(ext[60:]) if len(ext) >= 61 else AbsentOrEmpty()
    out["extended"] = e
    return out


@st.composite
def std_fields(draw):
    n = draw(st.one_of(st.integers(36, 260), st.sampled_from([36, 37, 55, 56, 57, 58, 59, 60, 61, 62, 73, 74, 75, 76, 95, 96, 97, 98, 260])))
    exact = max(0, min(255, n - 5))
    # what the device declares: usually what it has, sometimes more or less
    add = draw(st.one_of(st.just(exact), st.just(exact), st.just(exact), st.integers(0, 255), st.sampled_from([0, 30, 31, 32, 51, 52, 53, 55, 91, 92, 255])))
    alloc = draw(st.one_of(st.sampled_from([None, None, n]), st.integers(36, 300), st.sampled_from([36, 37, 56, 57, 58, 59, 60, 61, 74, 96, 97, 252, 255])))
    return dict(body=draw(page_bytes(n)).hex(), text=draw(st.tuples(ascii_bytes(8), ascii_bytes(16), ascii_bytes(4)).map(b"".join)).hex(), additional=add, alloc=alloc)


Reply("std_inquiry", std_fields(), std_build, std_expect,
      lambda f: {"cls": INQ + ".standard:StandardInquiryCommand", "kwargs": {} if f.get("alloc") is None else {"allocation_length": f["alloc"]}})


# ------------------------------------------------------------------ VPD pages

def vpd_head(f, code, length, width=2):
    return bytes([f["p"], code]) + (length.to_bytes(2, "big") if width == 2 else bytes([0, length]))


def head_expect(d, code):
    return {"peripheral_device": pdev(d), "page_code": code, "page_length": be(d, 2, 2)}


# 00h: supported pages; the length field read by the library is the low byte (there are at most 248 pages in a reply)
Reply("vpd_supported", fields(p=u8, pages=hexed(page_bytes(0, 248))),
      lambda f: vpd_head(f, 0x00, len(unhex(f["pages"]))) + unhex(f["pages"]),
      lambda f, d: dict(head_expect(d, 0x00), vpd_parameters=list(unhex(f["pages"]))), lambda f: vpd_cmd(0x00))

Reply("vpd_serial", fields(p=u8, serial=hexed(ascii_bytes(0, 248))),
      lambda f: vpd_head(f, 0x80, len(unhex(f["serial"]))) + unhex(f["serial"]),
      lambda f, d: dict(head_expect(d, 0x80), product_serial_number=Text(unhex(f["serial"]))), lambda f: vpd_cmd(0x80))


def bl_expect(f, d):
    return dict(head_expect(d, 0xb0), wsnz=bits(d, 4, 0, 1), maximum_compare_and_write_length=d[5], optimal_transfer_length_granularity=be(d, 6, 2),
                maximum_transfer_length=be(d, 8, 4), optimal_transfer_length=be(d, 12, 4), maximum_prefetch_xdread_xdwrite_transfer_length=be(d, 16, 4),
                maximum_unmap_lba_count=be(d, 20, 4), maximum_unmap_block_descriptor_count=be(d, 24, 4), optimal_unmap_granularity=be(d, 28, 4),
                ugavalid=bits(d, 32, 7, 1), unmap_granularity_alignment=be(d, 32, 4) & 0x7fffffff, maximum_write_same_length=be(d, 36, 8))


Reply("vpd_block_limits", fields(p=u8, body=hexed(page_bytes(0x3c))), lambda f: vpd_head(f, 0xb0, 0x3c) + unhex(f["body"]), bl_expect, lambda f: vpd_cmd(0xb0))

_DESIG = dict(code_set=None, designator_type=None, association=None, designator_length=None)


def lbp_build(f):
    body = bytearray(unhex(f["body"]))
    if f["group"] is None:
        body[1] &= 0xFE
        g = b""
    else:
        body[1] |= 1
        # SBC: a designation descriptor of type 1h or 3h that names the provisioning group, logical unit association
        ident = unhex(f["group"]["ident"])
        g = bytes([0x01, 0x03, 0, len(ident)]) + ident
    return vpd_head(f, 0xb2, 4 + len(g)) + bytes(body) + g


def naa_ident(naa):
    size = 16 if naa == 6 else 8
    return raw(size - 1).flatmap(lambda rest: st.integers(0, 15).map(lambda lo: (bytes([naa << 4 | lo]) + rest).hex()))


def lbp_expect(f, d):
    out = dict(head_expect(d, 0xb2), threshold_exponent=d[4], dp=bits(d, 5, 0, 1), anc_sup=bits(d, 5, 1, 1), lbprz=bits(d, 5, 2, 1), lbpws10=bits(d, 5, 5, 1),
               lbpws=bits(d, 5, 6, 1), lbpu=bits(d, 5, 7, 1), provisioning_type=bits(d, 6, 0, 3))
    if f["group"] is None:
        out["provisioning_group_descriptor"] = Absent(_DESIG)
    else:
        out["provisioning_group_descriptor"] = designator_expect(d[8:])
    return out


Reply("vpd_lbp", fields(p=u8, body=hexed(page_bytes(4)), group=st.one_of(st.none(), st.builds(lambda i: {"ident": i}, st.sampled_from([2, 3, 5, 6]).flatmap(naa_ident)))),
      lbp_build, lbp_expect, lambda f: vpd_cmd(0xb2))


def veritas_expect(f, d):
    out = dict(head_expect(d, 0xc0), raid_type=d[5])
    for i, n in enumerate(("is_thin_lun", "is_snapshot_lun", "is_space_optimized_src", "is_fcdisk_lun", "is_satadisk_lun", "is_replication_src", "is_replication_dst")):
        out[n] = bits(d, 4, i, 1)
    return out


Reply("vpd_veritas", fields(p=u8, body=hexed(page_bytes(2, 240))), lambda f: vpd_head(f, 0xc0, len(unhex(f["body"]))) + unhex(f["body"]), veritas_expect, lambda f: vpd_cmd(0xc0))

KNOWN_VPD = {0x00, 0x80, 0x83, 0x89, 0xb0, 0xb2, 0xc0}
Reply("vpd_unknown", fields(p=u8, code=u8.filter(lambda c: c not in KNOWN_VPD), body=hexed(st.one_of(page_bytes(0, 300), page_bytes(0, 2044)))),
      lambda f: vpd_head(f, f["code"], len(unhex(f["body"]))) + unhex(f["body"]),
      lambda f, d: dict(head_expect(d, f["code"]), page_data=Bytes(unhex(f["body"]))), lambda f: vpd_cmd(f["code"]))


# 89h ATA Information (SAT-3 12.4.2)

def ata_words(words):
    """ATA strings hold the first character in the high byte of each little-endian word."""
    return b"".join(words[i + 1:i + 2] + words[i:i + 1] for i in range(0, len(words), 2))


def ata_build(f):
    b = bytearray(unhex(f["body"]))
    b[0:4] = vpd_head(f, 0x89, 0x238)
    b[8:36] = unhex(f["text"])
    idn = 60
    b[idn + 20:idn + 40] = ata_words(unhex(f["serial"]))
    b[idn + 46:idn + 54] = ata_words(unhex(f["fw"]))
    b[idn + 54:idn + 94] = ata_words(unhex(f["model"]))
    return bytes(b)


def ata_expect(f, d):
    lba = bytes([d[40], d[41], d[42], d[44], d[45], d[46]])
    sig = dict(transport_id=d[36], pm_port=bits(d, 37, 0, 4), interrupt=bits(d, 37, 6, 1), status=d[38], error=d[39], device=d[43],
               lba=Pred(lambda o: lba_matches(o, lba), "lba registers %s" % lba.hex()),
               sector_count=int.from_bytes(d[48:50], "little"))
    return dict(head_expect(d, 0x89), sat_vendor_identification=Text(d[8:16]), sat_product_identification=Text(d[16:32]), sat_product_revision_level=Text(d[32:36]),
                device_signature=sig, command_code=d[56],
                identify_device=dict(serial_number=Text(unhex(f["serial"])), firmware_revision=Text(unhex(f["fw"])), model_number=Text(unhex(f["model"]))))


def lba_matches(o, lba):
    if isinstance(o, dict) and "$b" in o:
        return o["$b"] == lba.hex()
    if isinstance(o, str):
        return o.rstrip(" \0") == lba.decode("latin-1").rstrip(" \0")
    return o == list(lba)


Reply("vpd_ata", fields(p=u8, body=hexed(page_bytes(572)), text=hexed(st.tuples(ascii_bytes(8), ascii_bytes(16), ascii_bytes(4)).map(b"".join)),
                        serial=hexed(ascii_bytes(20)), fw=hexed(ascii_bytes(8)), model=hexed(ascii_bytes(40))), ata_build, ata_expect, lambda f: vpd_cmd(0x89))


# ------------------------------------------------------------------ 83h Device Identification

def designator_expect(x):
    """Reference decoder of one designation descriptor (SPC-4 7.8.6)."""
    t = bits(x, 1, 0, 4)
    n = x[3]
    i = x[4:4 + n]
    out = dict(designator_type=t, designator_length=n, code_set=bits(x, 0, 0, 4), protocol_identifier=bits(x, 0, 4, 4), association=bits(x, 1, 4, 2), piv=bits(x, 1, 7, 1))
    if t == 0:
        out["vendor_specific_identifier"] = Bytes(i)
    elif t == 1:
        out.update(t10_vendor_identification=Text(i[:8]), vendor_specific_identifier=Bytes(i[8:]))
    elif t == 2 and n in (8, 12):
        out.update(ieee_company=be(i, 0, 3), vendor_specific_extension_identifer=be(i, 3, 5))
        if n == 12:
            out["directory_id"] = be(i, 8, 4)
    elif t == 2:
        out.update(identifier_extension=be(i, 0, 8), ieee_company=be(i, 8, 3), vendor_specific_extension_identifer=be(i, 11, 5))
    elif t == 3:
        naa = i[0] >> 4
        v = be(i, 0, 8) & ((1 << 60) - 1)
        out["naa"] = naa
        if naa == 2:
            out.update(vendor_specific_identifier_a=v >> 48, ieee_company=(v >> 24) & 0xFFFFFF, vendor_specific_identifier_b=v & 0xFFFFFF)
        elif naa == 3:
            out["locally_administered_value"] = v
        else:
            out.update(ieee_company_id=v >> 36, vendor_specific_identifier=v & ((1 << 36) - 1))
            if naa == 6:
                out["vendor_specific_identifier_extension"] = be(i, 8, 8)
    elif t == 4:
        out["relative_target_port_identifier"] = be(i, 2, 2)
    elif t == 5:
        out["target_port_group"] = be(i, 2, 2)
    elif t == 6:
        out["logical_unit_group"] = be(i, 2, 2)
    elif t == 7:
        out["md5_logical_unit_identifier"] = Bytes(i)
    elif t == 8:
        out["scsi_name_string"] = Bytes(i)
    else:
        out["designator"] = Bytes(i)
    return out


def _d(t, ident):
    return st.tuples(u8, nbits(4), u8, ident).map(lambda x: (bytes([x[0], (x[1] & 0xF) << 4 | t, x[2], len(x[3])]) + x[3]).hex())


def _naa(n):
    return naa_ident(n).map(bytes.fromhex)


DESIGNATORS = dict(vendor=_d(0, page_bytes(0, 40)), t10=_d(1, st.tuples(ascii_bytes(8), page_bytes(0, 40)).map(b"".join)), eui8=_d(2, page_bytes(8)), eui12=_d(2, page_bytes(12)),
                   eui16=_d(2, page_bytes(16)), naa2=_d(3, _naa(2)), naa3=_d(3, _naa(3)), naa5=_d(3, _naa(5)), naa6=_d(3, _naa(6)), rtp=_d(4, page_bytes(4)),
                   tpg=_d(5, page_bytes(4)), lug=_d(6, page_bytes(4)), md5=_d(7, page_bytes(16)), name=_d(8, st.one_of(page_bytes(0, 48), page_bytes(0, 223))),
                   proto=_d(9, page_bytes(4, 8)), uuid=_d(10, page_bytes(18)), reserved=st.integers(11, 15).flatmap(lambda t: _d(t, page_bytes(0, 32))))
designator = st.sampled_from(sorted(DESIGNATORS)).flatmap(lambda k: DESIGNATORS[k])


def fit(limit):
    def cut(items):
        out, size = [], 0
        for h in items:
            if size + len(h) // 2 > limit:
                break
            out.append(h)
            size += len(h) // 2
        return out
    return cut


def devid_build(f):
    body = b"".join(unhex(h) for h in f["list"])
    return vpd_head(f, 0x83, len(body)) + body


Reply("vpd_devid", fields(p=u8, list=st.lists(designator, max_size=14).map(fit(248))), devid_build,
      lambda f, d: dict(head_expect(d, 0x83), designators_list=[designator_expect(unhex(h)) for h in f["list"]]), lambda f: vpd_cmd(0x83),
      raw_cls=INQ + ".vpd_pages.device_identification:DeviceIdentificationVPDPageBuffer")
BIG_DEVID = fields(p=u8, list=st.lists(designator, min_size=6, max_size=60).map(fit(4000)))

# ------------------------------------------------------------------ capacity, port groups, copy parameters
CDB = "infi.asi.cdb."

Reply("rc10", fields(body=hexed(page_bytes(8))), lambda f: unhex(f["body"]),
      lambda f, d: dict(last_logical_block_address=be(d, 0, 4), block_length_in_bytes=be(d, 4, 4)), lambda f: {"cls": CDB + "read_capacity:ReadCapacity10Command"}, declares=False)
Reply("rc16", fields(body=hexed(page_bytes(32))), lambda f: unhex(f["body"]),
      lambda f, d: dict(last_logical_block_address=be(d, 0, 8), block_length_in_bytes=be(d, 8, 4), prot_en=bits(d, 12, 0, 1), p_type=bits(d, 12, 1, 3),
                        logical_blocks_per_physical_block=bits(d, 13, 0, 4), p_i_exponent=bits(d, 13, 4, 4), lowest_aligned_lba_msb=bits(d, 14, 0, 6),
                        troz=bits(d, 14, 6, 1), tpe=bits(d, 14, 7, 1), lowest_aligned_lba_lsb=d[15]),
      lambda f: {"cls": CDB + "read_capacity:ReadCapacity16Command"}, declares=False)


@st.composite
def rtpg_fields(draw):
    style = draw(st.integers(0, 4))
    if style == 0:
        groups = [(draw(page_bytes(7)).hex(), [draw(page_bytes(4)).hex() for _ in range(draw(st.integers(0, 2)))]) for _ in range(draw(st.integers(0, 30)))]
    elif style == 1:
        n = draw(st.one_of(st.integers(0, 255), st.sampled_from([127, 128, 129, 255])))
        seed = draw(page_bytes(4 * 8))
        groups = [(draw(page_bytes(7)).hex(), [seed[4 * (i % 8):4 * (i % 8) + 4].hex() for i in range(n)]) for _ in range(draw(st.integers(1, 3)))]
    else:
        groups = [(draw(page_bytes(7)).hex(), [draw(page_bytes(4)).hex() for _ in range(draw(st.integers(0, 5)))]) for _ in range(draw(st.integers(0, 4)))]
    return dict(ext=draw(bit), head=draw(page_bytes(4)).hex(), groups=groups)


def rtpg_build(f):
    body = b"".join(unhex(h) + bytes([len(ports)]) + b"".join(unhex(p) for p in ports) for h, ports in f["groups"])
    if f["ext"]:
        h = bytearray(unhex(f["head"]))
        h[0] = h[0] & 0x8F | 0x10
        body = bytes(h) + body
    return len(body).to_bytes(4, "big") + body


def rtpg_expect(f, d):
    groups = []
    for h, ports in f["groups"]:
        g = unhex(h)
        groups.append(dict(asymetric_access_state=bits(g, 0, 0, 4), pref=bits(g, 0, 7, 1), ao_sup=bits(g, 1, 0, 1), an_sup=bits(g, 1, 1, 1), s_sup=bits(g, 1, 2, 1),
                           u_sup=bits(g, 1, 3, 1), lbd_sup=bits(g, 1, 4, 1), o_sup=bits(g, 1, 6, 1), t_sup=bits(g, 1, 7, 1), target_port_group=be(g, 2, 2),
                           status_code=g[5], target_port_count=len(ports),
                           target_port_list=[dict(relative_target_port_identifier=be(unhex(p), 2, 2)) for p in ports]))
    out = dict(data_length=be(d, 0, 4), descriptor_list=groups)
    if f["ext"]:
        out["format_type"] = 1
    return out


Reply("rtpg", rtpg_fields(), rtpg_build, rtpg_expect, lambda f: {"cls": CDB + "rtpg:RTPGCommand", "kwargs": dict({"parameter_data_format": f["ext"]}, **({"allocation_length": f["alloc"]} if f.get("alloc") else {}))})


def rcop_build(f):
    b = bytearray(unhex(f["body"]))
    lst = unhex(f["list"])
    b[43] = len(lst)
    b += lst
    b[0:4] = (len(b) - 4).to_bytes(4, "big")
    return bytes(b)


def rcop_expect(f, d):
    out = dict(available_data=be(d, 0, 4), snlid=bits(d, 4, 0, 1), max_cscd_descriptor_count=be(d, 8, 2), max_segment_descriptor_count=be(d, 10, 2),
               max_descriptor_list_length=be(d, 12, 4), max_segment_length=be(d, 16, 4), max_inline_data_length=be(d, 20, 4), held_data_limit=be(d, 24, 4),
               max_stream_device_transfer_size=be(d, 28, 4), total_concurrent_copies=be(d, 34, 2), max_concurrent_copies=d[36], data_segment_granularity=d[37],
               inline_data_granularity=d[38], held_data_granularity=d[39], implemented_descriptor_list_length=d[43], implemented_descriptor_list=list(unhex(f["list"])))
    return out


Reply("rcop", fields(body=hexed(page_bytes(44)), list=hexed(page_bytes(0, 255))), rcop_build, rcop_expect,
      lambda f: {"cls": CDB + "receive_copy_operating_parameters:ReceiveCopyOperatingParametersCommand", "kwargs": {"allocation_length": 1024, "control": 0}})


# ------------------------------------------------------------------ REPORT LUNS

def luns_build(f):
    body = b"".join(v.to_bytes(8, "big") for v in f["luns"])
    return len(body).to_bytes(4, "big") + unhex(f["rsvd"]) + body


def luns_expect(f, d):
    return dict(lun_list_length=be(d, 0, 4), lun_list=[v >> 48 for v in f["luns"]],
                hex_lun_list=[Pred(lambda o, v=v: isinstance(o, str) and int(o, 16) == v, "hex of %x" % v) for v in f["luns"]])


simple_lun = st.one_of(st.integers(0, 0x3FFF).map(lambda v: v << 48), st.sampled_from([0, 255, 256, 0x3FFF, 0x100, 0x2000, 0xFF00 & 0x3FFF]).map(lambda v: v << 48))
Reply("luns", fields(luns=st.lists(simple_lun, max_size=20), rsvd=hexed(page_bytes(4))), luns_build, luns_expect, lambda f: {"cls": CDB + "report_luns:ReportLunsCommand"})

# ------------------------------------------------------------------ PERSISTENT RESERVE IN
PRIN = CDB + "persist.input:PersistentReserveInCommand"


def prin(action):
    def cmd(f):
        kw = {"service_action": action}
        if f.get("alloc") is not None:
            kw["allocation_length"] = f["alloc"]
        return {"cls": PRIN, "kwargs": kw}
    return cmd


alloc = st.one_of(st.none(), st.none(), st.integers(8, 700), st.sampled_from([8, 9, 15, 16, 17, 20, 21, 22, 23, 24, 25, 31, 32, 255, 256, 512, 65535]))


def keys_expect(f, d):
    whole = 8 + 8 * len(f["keys"])
    return {"pr_generation": be(d, 0, 4), "additional_length": be(d, 4, 4), "key_list": list(f["keys"]) if len(d) >= whole else AbsentOrEmpty(),
            "required_allocation_length()": whole}


Reply("pr_keys", fields(gen=u32, keys=st.one_of(st.lists(u64, max_size=8), st.lists(u64, min_size=60, max_size=80)), alloc=alloc),
      lambda f: f["gen"].to_bytes(4, "big") + (8 * len(f["keys"])).to_bytes(4, "big") + b"".join(k.to_bytes(8, "big") for k in f["keys"]), keys_expect, prin(0))


def resv_build(f):
    h = f["holder"]
    if h is None:
        return f["gen"].to_bytes(4, "big") + b"\0\0\0\0"
    body = h["key"].to_bytes(8, "big") + unhex(h["obs"]) + bytes([h["rsvd"], h["scope"] << 4 | h["type"]]) + unhex(h["obs2"])
    return f["gen"].to_bytes(4, "big") + b"\0\0\0\x10" + body


def resv_expect(f, d):
    h = f["holder"]
    n = len(d) if h is not None else 8
    return {"pr_generation": f["gen"], "additional_length": 16 if h else 0, "required_allocation_length()": 24 if h else 8,
            "reservation_key": h["key"] if n >= 16 else Absent(), "pr_type": h["type"] if n >= 22 else Absent(), "scope": h["scope"] if n >= 22 else Absent()}


Reply("pr_resv", fields(gen=u32, holder=st.one_of(st.none(), fields(key=u64, obs=hexed(page_bytes(4)), rsvd=u8, scope=nbits(4), type=nbits(4), obs2=hexed(page_bytes(2)))), alloc=alloc),
      resv_build, resv_expect, prin(1))


def caps_expect(f, d):
    return {"length": 8, "persist_through_power_lost_capable": bits(d, 2, 0, 1), "all_target_ports_capable": bits(d, 2, 2, 1), "specify_initiator_ports_capable": bits(d, 2, 3, 1),
            "compatible_reservation_handling": bits(d, 2, 4, 1), "replace_lost_reservation_capable": bits(d, 2, 7, 1), "persist_through_power_lost_activates": bits(d, 3, 0, 1),
            "allow_commands": bits(d, 3, 4, 3), "type_mask_valid": bits(d, 3, 7, 1), "write_exclusive": bits(d, 4, 1, 1), "exclusive_access": bits(d, 4, 3, 1),
            "write_exclusive_registrants_only": bits(d, 4, 5, 1), "exclusive_access_registrants_only": bits(d, 4, 6, 1), "write_exclusive_all_registrants": bits(d, 4, 7, 1),
            "exclusive_access_all_registrants": bits(d, 5, 0, 1), "required_allocation_length()": 8}


Reply("pr_caps", fields(body=hexed(page_bytes(6)), alloc=alloc), lambda f: b"\0\x08" + unhex(f["body"]), caps_expect, prin(2))


def full_build(f):
    body = b""
    for x in f["list"]:
        h = bytearray(unhex(x["head"]))
        tid = unhex(x["tid"])
        h[20:24] = len(tid).to_bytes(4, "big")
        body += bytes(h) + tid
    return f["gen"].to_bytes(4, "big") + len(body).to_bytes(4, "big") + body


def full_expect(f, d):
    whole = len(full_build(f))
    lst = []
    for x in f["list"]:
        h, t = unhex(x["head"]), unhex(x["tid"])
        lst.append(dict(reservation_key=be(h, 0, 8), reservation_holder=bits(h, 12, 0, 1), all_target_ports=bits(h, 12, 1, 1), pr_type=bits(h, 13, 0, 4), scope=bits(h, 13, 4, 4),
                        relative_target_port_identifier=be(h, 18, 2), additional_length=len(t),
                        transport_id=dict(protocol_identifier=bits(t, 0, 0, 4), format_code=bits(t, 0, 6, 2), specific_data=Bytes(t[1:]))))
    out = {"pr_generation": f["gen"], "additional_length": whole - 8, "required_allocation_length()": whole,
           "full_status_descriptors": AbsentOrEmpty() if not lst else lst if len(d) >= whole else Pred(lambda o: True, "whatever arrived", None)}
    if lst and len(d) < whole:
        arrived, size = 0, 8
        for x in f["list"]:
            size += 24 + len(x["tid"]) // 2
            if size > len(d):
                break
            arrived += 1
        # absent, or only the descriptors that arrived whole
        out["full_status_descriptors"] = Pred(lambda o: o is None or o == [] or isinstance(o, list) and len(o) <= arrived, "absent or at most %d entries" % arrived, None)
    return out


# iSCSI names are 24 bytes to 244 (SPC); the length field has room for more
transport_id = st.one_of(page_bytes(24), page_bytes(24, 60), page_bytes(24, 300), st.integers(0, 255).flatmap(lambda b: st.sampled_from([255, 256, 257, 500, 1000]).map(lambda n: bytes([b]) * n)))
Reply("pr_full", fields(gen=u32, list=st.lists(fields(head=hexed(page_bytes(24)), tid=hexed(transport_id)), max_size=6), alloc=st.one_of(alloc, st.integers(300, 4096))),
      full_build, full_expect, prin(3))
