from hypothesis import strategies as st
from ..core import expect, brief
from ..gen import ints, raw, u8, u16, u32, nbits, bit
from . import p01, p03, p04, p05

ID = "P06"
QUICK, THOROUGH = 9000, 150000
RULE = ("A case is any command of the library executed against a scripted device whose first reply is data or one of many errors (further "
        "replies are successes, so a retry would show), or any command with any arguments, whose one request must be what P01, P03, P04 and P05 expect of it; non-trivial when the device answers with an error or with data that is returned raw.")

ERRORS = st.one_of(
    st.sampled_from([dict(r) for r in (
        {"raise": "AsiSCSIError"}, {"raise": "AsiOSError"}, {"raise": "AsiInternalError"}, {"raise": "AsiException"}, {"raise": "AsiReservationConflictError"},
        {"raise": "AsiRequestQueueFullError"}, {"raise": "MyDeviceError"}, {"raise": "OSError", "errno": 5}, {"raise": "OSError", "errno": 4},
        {"raise": "OSError", "errno": 11}, {"raise": "OSError", "errno": 16}, {"raise": "ValueError"}, {"raise": "RuntimeError"}, {"raise": "KeyError"},
        {"raise": "AssertionError"}, {"raise": "TypeError"}, {"raise": "MemoryError"}, {"raise": "KeyboardInterrupt"}, {"raise": "SystemExit"})]),
    st.builds(lambda fixed, key, asc, ascq, defer: {"raise": "AsiCheckConditionError", "sense": sense(fixed, key, asc, ascq, defer)},
              st.booleans(), nbits(4), u8, u8, bit),
    st.builds(lambda key, a: {"raise": "AsiCheckConditionError", "sense": sense(True, key, a[0], a[1], 0)},
              st.sampled_from([2, 6, 5, 4, 0xb, 0xe]), st.sampled_from([(0x29, 0), (0x29, 1), (0x2a, 1), (0x2a, 9), (0x3f, 0xe), (0x04, 1), (0x20, 0), (0x24, 0), (0x25, 0), (0x1d, 0), (0x47, 5)])))


def sense(fixed, key, asc, ascq, deferred):
    if fixed:
        return (bytes([0x70 + deferred, 0, key, 0, 0, 0, 0, 10, 0, 0, 0, 0, asc, ascq, 0, 0, 0, 0]) + bytes(237)).hex()
    return (bytes([0x72 + deferred, key, asc, ascq, 0, 0, 0, 0]) + bytes(247)).hex()


def sp(cls, *args, **kw):
    return {"cls": "infi.asi.cdb." + cls, "args": list(args), "kwargs": kw}


BLK = {"$fill": [4, 1024]}
CONF = "0100001c00000000" + "11000024" + "00" * 8 + "20" * 28 + "0000"
# name -> (command, kind, valid reply or None when the result is the raw reply)
RAW = "raw"
CAT = {
    "read6": (sp("read:Read6Command", 5, 7), "read", RAW), "read6_256": (sp("read:Read6Command", 5, 0, 520), "read", RAW),
    "read10": (sp("read:Read10Command", 5, 7), "read", RAW), "read12": (sp("read:Read12Command", 5, 7, 4096), "read", RAW),
    "read16": (sp("read:Read16Command", 5, 7), "read", RAW), "read16_0": (sp("read:Read16Command", 5, 0), "read", RAW),
    "write6": (sp("write:Write6Command", 5, BLK), "write", RAW), "write10": (sp("write:Write10Command", 5, BLK), "write", RAW),
    "write12": (sp("write:Write12Command", 5, BLK), "write", RAW), "write16": (sp("write:Write16Command", 5, BLK), "write", RAW),
    "ws10": (sp("write_same:WriteSame10Command", 5, BLK, 3), "write", RAW), "ws16": (sp("write_same:WriteSame16Command", 5, BLK, 3), "write", RAW),
    "caw": (sp("compare_and_write:CompareAndWriteCommand", 5, BLK, 1), "write", RAW), "unmap": (sp("unmap:UnmapCommand", [[1, 2], [3, 4]]), "write", RAW),
    "unmap0": (sp("unmap:UnmapCommand", []), "write", RAW),
    "tur": (sp("tur:TestUnitReadyCommand"), "read", "tur"),
    "rc10": (sp("read_capacity:ReadCapacity10Command"), "read", "00000fff00000200"),
    "rc16": (sp("read_capacity:ReadCapacity16Command"), "read", "0000000000000fff00000200" + "00" * 20),
    "luns": (sp("report_luns:ReportLunsCommand"), "read", "00000008" + "00" * 12), "luns8": (sp("report_luns:ReportLunsCommand", 0, 8), "read", "00000008" + "00" * 4),
    "rtpg": (sp("rtpg:RTPGCommand"), "read", "00000000"), "rtpg1": (sp("rtpg:RTPGCommand", 1, 64), "read", "0000000410000000"),
    "rcop": (sp("receive_copy_operating_parameters:ReceiveCopyOperatingParametersCommand", allocation_length=60, control=0), "read", "00" * 60),
    "log": (sp("log_sense:LogSenseCommand", 0x2f), "read", RAW), "log2": (sp("log_sense:LogSenseCommand", 0x0d, 1, 17), "read", RAW),
    "std": (sp("inquiry.standard:StandardInquiryCommand"), "read", "00000602" + "1f" + "00" * 31),
    "std96": (sp("inquiry.standard:StandardInquiryCommand", allocation_length=96), "read", "00000602" + "5b" + "00" * 91),
    "reserve6": (sp("reserve:Reserve6Command"), "write", RAW), "release6": (sp("release:Release6Command"), "write", RAW),
    "reserve10": (sp("reserve:Reserve10Command"), "write", RAW), "release10": (sp("release:Release10Command"), "write", RAW),
    "reserve10_3": (sp("reserve:Reserve10Command", 77), "write", RAW), "release10_3": (sp("release:Release10Command", 77), "write", RAW),
    "reserve10_l": (sp("reserve:Reserve10Command", 1 << 40), "write", RAW), "release10_l": (sp("release:Release10Command", 1 << 40), "write", RAW),
    "diag": (dict(sp("diagnostic.ses_pages:get_ses_page", 0), factory=True), "read", "0000000400010207"),
    "diag1": (dict(sp("diagnostic.ses_pages:get_ses_page", 1), factory=True), "read", CONF),
    "diag80": (dict(sp("diagnostic.ses_pages:get_ses_page", 0x80), factory=True), "read", "8000000401020304"),
}
for _p, _reply in ((0x00, "0000000400808389"), (0x80, "00800004" + "41" * 4), (0x83, "00830000"), (0xb0, "00b0003c" + "00" * 60), (0xb2, "00b20004" + "00" * 4),
                   (0xc0, "00c00002" + "0000"), (0x86, "0086000401020304"), (0x89, "00890238" + "00" * 568)):
    CAT["vpd%02x" % _p] = (dict(sp("inquiry.vpd_pages:get_vpd_page", _p), factory=True), "read", _reply)
for _a in range(4):
    CAT["prin%d" % _a] = (sp("persist.input:PersistentReserveInCommand", _a), "read", ["0000000100000000", "0000000100000000", "0008000000000000", "0000000100000000"][_a])
for _a in (0, 1, 2, 3, 4, 5, 6, 8):
    CAT["prout%d" % _a] = (sp("persist.output:PersistentReserveOutCommand", _a, 1, 2), "write", RAW)
CAT["prout7"] = (sp("persist.output:PersistentReserveOutCommand", 7, 1, 2, transport_id={"$new": "infi.asi.cdb.persist.transport:TransportId",
                                                                                          "kwargs": dict(specific_data={"$b": "00" * 23})}), "write", RAW)
NAMES = sorted(CAT)


SENT = {"p01": p01, "p03": p03, "p04": p04, "p05": p05}


@st.composite
def case(draw):
    if draw(st.integers(0, 3)) == 0:        # the request of any command with any arguments
        mod = draw(st.sampled_from(sorted(SENT)))
        return dict(mod=mod, case=draw(SENT[mod].strategy()))
    c = dict(name=draw(st.sampled_from(NAMES)))
    k = draw(st.integers(0, 3))
    if k:
        c["reply"] = draw(ERRORS)
    else:
        c["reply"] = {"data": draw(st.one_of(st.none(), raw(0, 64).map(lambda b: b.hex())))}
        c["odd"] = draw(bit)        # commands that decode are answered with the same bytes rather than with a valid reply
    return c


def strategy():
    return case()


def fixed():
    for n in NAMES:
        for r in ({"raise": "AsiSCSIError"}, {"raise": "AsiOSError"}, {"raise": "AsiReservationConflictError"}, {"raise": "OSError", "errno": 5},
                  {"raise": "KeyboardInterrupt"}, {"raise": "AsiCheckConditionError", "sense": sense(True, 6, 0x29, 0, 0)},
                  {"raise": "AsiCheckConditionError", "sense": sense(False, 2, 4, 1, 0)}, {"data": None}, {"data": "0102"}):
            yield dict(name=n, reply=r)
        for data in (None, "", "00", "0000", "000102", "00000004", "00000000000000"):
            yield dict(name=n, reply={"data": data}, odd=1)


def be(h, a, b):
    return int(h[2 * a:2 * b], 16)


def read_length(cdb, c, s):
    op = be(cdb, 0, 1)
    if op in (0x08, 0x28, 0xA8, 0x88):
        n = {0x08: be(cdb, 4, 5) or 256, 0x28: be(cdb, 7, 9) if len(cdb) >= 20 else 0}.get(op)
        if n is None:
            n = be(cdb, 6, 10) if op == 0xA8 else be(cdb, 10, 14)
        return n * (s["args"][2] if len(s["args"]) > 2 else 512)
    return {0x00: lambda: 0, 0x25: lambda: 8, 0x9E: lambda: be(cdb, 10, 14), 0xA0: lambda: be(cdb, 6, 10), 0xA3: lambda: be(cdb, 6, 10),
            0x84: lambda: be(cdb, 10, 14), 0x4D: lambda: be(cdb, 7, 9), 0x1C: lambda: be(cdb, 3, 5), 0x5E: lambda: be(cdb, 7, 9), 0x12: lambda: be(cdb, 3, 5)}[op]()


def judge(c, run):
    if "mod" in c:
        SENT[c["mod"]].judge(c["case"], run)
        return ["request", c["mod"]], False
    s, kind, expects = CAT[c["name"]]
    reply = c["reply"]
    odd = c.get("odd") and expects not in (RAW, "tur")
    if "data" in reply and expects not in (RAW, "tur") and not odd:
        reply = {"data": expects}
    obs = run("execute", cmd=s, replies=[reply, {"data": None}, {"data": None}, {"data": None}])
    what = "%s answered with %s" % (c["name"], brief(reply, 120))
    expect("build_error" not in obs, "%s: construction raised %s", what, brief(obs.get("build_error")))
    expect(len(obs["requests"]) == 1, "%s: %d requests were sent: %s", what, len(obs["requests"]), brief(obs["requests"], 300))
    req = obs["requests"][0]
    expect(req["kind"] == kind, "%s: request kind %s", what, req["kind"])
    if kind == "read":
        want = read_length(req["cdb"], c, s)
        expect(req["len"] == want, "%s: CDB %s asks for %d bytes but the request for %s", what, req["cdb"], want, req["len"])
    else:
        op = be(req["cdb"], 0, 1)
        if op in (0x42, 0x56, 0x57):
            expect(req["data"]["len"] == be(req["cdb"], 7, 9), "%s: CDB %s, payload of %d bytes", what, req["cdb"], req["data"]["len"])
        elif op == 0x5F:
            expect(req["data"]["len"] == be(req["cdb"], 5, 9), "%s: CDB %s, payload of %d bytes", what, req["cdb"], req["data"]["len"])
    if "raise" in reply:
        expect("error" in obs, "%s: the error was lost, result %s", what, brief(obs.get("result")))
        expect(obs["same"], "%s: a different error reached the caller: %s", what, brief(obs["error"]))
        return ["error", kind], True
    if odd:     # whatever the reply is worth, it is all there is
        expect(reply["data"] or "error" in obs, "%s: a result was made up: %s", what, brief(obs.get("result")))
        return ["odd", kind], True
    expect("error" not in obs, "%s: raised %s", what, brief(obs.get("error")))
    if expects == RAW:
        want = None if reply["data"] is None else {"$b": reply["data"]}
        expect(obs["result"] == want, "%s: result %s", what, brief(obs["result"]))
    elif expects == "tur":
        expect(obs["result"] == 1, "%s: result %s", what, brief(obs["result"]))
    return ["data", kind], expects == RAW and reply["data"] is not None
