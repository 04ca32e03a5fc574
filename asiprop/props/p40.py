import re
from hypothesis import strategies as st
from ..core import expect, brief
from ..gen import u8, u16
from .. import execs as X
from . import p23

ID = "P40"
QUICK, THOROUGH = 3000, 60000
TECHNIQUE = "property-based testing with enumeration: failures over fake kernels of every platform and all name tables, against tables transcribed from the standards and system headers"
RULE = ("A case is one command completed with generated statuses on one platform, whose error text must state each of them by number and by its own name only, or one published name table looked up under all "
        "its codes and all unassigned ones. Non-trivial when an error with a named status is raised or a table has an entry for the code.")
NOTE = "Names are compared by their words, not by their exact spelling; entries of an open-ended table for codes this list does not know are not judged unless they repeat an assigned name."

SCSI = {0: "GOOD", 2: "CHECK_CONDITION", 4: "CONDITION_MET", 8: "BUSY", 0x18: "RESERVATION_CONFLICT", 0x28: "TASK_SET_FULL", 0x30: "ACA_ACTIVE", 0x40: "TASK_ABORTED"}
DRIVER = dict(enumerate(["DRIVER_OK", "DRIVER_BUSY", "DRIVER_SOFT", "DRIVER_MEDIA", "DRIVER_ERROR", "DRIVER_INVALID", "DRIVER_TIMEOUT", "DRIVER_HARD", "DRIVER_SENSE"]))
HOST = dict(enumerate("DID_" + n for n in ["OK", "NO_CONNECT", "BUS_BUSY", "TIME_OUT", "BAD_TARGET", "ABORT", "PARITY", "ERROR", "RESET", "BAD_INTR", "PASSTHROUGH", "SOFT_ERROR"]))
VALIDITY = {1: "SC_SCSI_ERROR", 2: "SC_ADAPTER_ERROR"}
ADAPTER = dict(enumerate(["SCSI_HOST_IO_BUS_ERR", "SCSI_TRANSPORT_FAULT", "SCSI_CMD_TIMEOUT", "SCSI_NO_DEVICE_RESPONSE", "SCSI_ADAPTER_HDW_FAILURE", "SCSI_ADAPTER_SFW_FAILURE", "SCSI_WW_NAME_CHANGE",
                          "SCSI_FUSE_OR_TERMINAL_PWR", "SCSI_TRANSPORT_RESET", "SCSI_TRANSPORT_BUSY", "SCSI_TRANSPORT_DEAD", "SCSI_VERIFY_DEVICE", "SCSI_TRANSPORT_MIGRATED", "SCSI_ERROR_NO_RETRY", "SCSI_ERROR_DELAY_LOG"], 1))
EINVAL = {1: "INV_VERS", 9: "INV_Q_TAG_MSG", 10: "INV_FLAGS", 11: "INV_DEVFLAGS", 12: "INV_Q_FLAGS", 13: "INV_CDB_LEN", 15: "INV_AS_LEN", 16: "INV_CDB", 17: "INV_TO", 18: "INV_D_LEN", 19: "INV_SID",
          20: "INV_LUN", 21: "INV_BUFF", 22: "INV_AS_BUFF", 23: "INV_VAR_CDB_LEN", 24: "INV_VAR_CDB"}

VPD = "infi.asi.cdb.inquiry.vpd_pages"
CONF, ES = "infi.asi.cdb.diagnostic.ses_pages.configuration", "infi.asi.cdb.diagnostic.ses_pages.enclosure_status"
# code -> words that must be in the name, in order, ignoring case and punctuation ("|" for alternatives)
TABLES = {
    "device type": (VPD, "SCSI_PERIPHERAL_DEVICE_TYPE", {0: "disk|direct access block", 1: "tape|sequential", 2: "printer", 3: "processor", 4: "write once", 5: "cd dvd", 6: "scanner", 7: "optical memory", 8: "changer", 9: "communications", 10: "graphics",
                    11: "graphics", 12: "storage array", 13: "enclosure services", 14: "simplified direct access|reduced block", 15: "optical card", 16: "bridge", 17: "object based", 18: "automation drive", 19: "security manager", 20: "zoned block|host managed",
                    30: "well known", 31: "no physical device|unknown or no"}, range(32)),
    "version": (VPD, "SCSI_VERSION_NAME", {0: "no conformance|does not claim", 1: "scsi 1", 2: "scsi 2", 3: "spc$", 4: "spc 2", 5: "spc 3", 6: "spc 4", 7: "spc 5"}, range(256)),
    "VPD page": (VPD, "SCSI_VPD_NAME", {0: "supported vpd pages", 0x80: "unit serial number", 0x81: "implemented operating definition", 0x82: "ascii implemented operating definition", 0x83: "device identification",
                 0x84: "software interface identification", 0x85: "management network addresses", 0x86: "extended inquiry data", 0x87: "mode page policy", 0x88: "scsi ports", 0x89: "ata information", 0x8a: "power condition",
                 0x8b: "device constituents", 0x8c: "cfa profile", 0x8d: "power consumption", 0x8f: "third party copy", 0x90: "protocol specific logical unit", 0x91: "protocol specific port", 0x92: "feature sets"}, range(0xb0)),
    "typed VPD page": (VPD, "SCSI_VPD_NAME", {(0xb0, 0): "block limits", (0xb0, 1): "sequential access device capabilities", (0xb0, 0x11): "osd information", (0xb1, 0): "block device characteristics", (0xb1, 0x11): "security token",
                       (0xb1, 0xd): "enclosure services device characteristics", (0xb2, 0): "logical block provisioning|thin provisioning", (0xb2, 1): "tapealert supported flags", (0xb3, 0): "referrals"},
                       [(p, t) for p in (0xb0, 0xb1, 0xb2, 0xb3) for t in range(32)]),
    "code set": (VPD, "SCSI_CODE_SETS", {1: "binary", 2: "ascii", 3: "utf 8"}, range(16)),
    "designator type": (VPD, "SCSI_DESIGNATOR_TYPES", {0: "vendor specific", 1: "t10 vendor", 2: "eui 64", 3: "naa", 4: "relative target port", 5: "target port group", 6: "logical unit group", 7: "md5 logical unit", 8: "scsi name string",
                        9: "protocol specific port", 10: "uuid", **{i: "reserved" for i in range(11, 16)}}, range(16)),
    "association": (VPD, "SCSI_DESIGNATOR_ASSOCIATIONS", {0: "logical unit", 1: "target port", 2: "target device", 3: "reserved"}, range(4)),
    "element type": (CONF, "ELEMENT_TYPE_CODES", dict(enumerate(["unspecified", "device slot", "power supply", "cooling", "temperature sensor", "door", "audible alarm", "enclosure services controller", "scc controller", "nonvolatile cache",
                     "invalid operation reason", "uninterruptible power supply", "display", "key pad", "enclosure$", "scsi port transceiver", "language", "communication port", "voltage sensor", "current sensor", "scsi target port",
                     "scsi initiator port", "simple subenclosure|^ subenclosure", "array device slot", "sas expander", "sas connector"])), range(256)),
    "element status": (ES, "ELEMENT_STATUS_CODE", dict(enumerate(["unsupported", "ok", "^ critical", "noncritical|non critical", "unrecoverable", "not installed", "unknown", "not available", "no access"])), range(16)),
    "fan speed": (ES, "FAN_SPEED_CODE", dict(enumerate(["stopped", "at its lowest", "second lowest", "third lowest", "intermediate", "third highest", "second highest", "at its highest"])), range(8)),
}
NUMBERS = {
    "SCSI status": ("infi.asi", "SCSI_STATUS_CODES", "map", {"SCSI_STATUS_" + n: v for v, n in SCSI.items()}),
    "sense key": ("infi.asi.sense", "SCSI_SENSE_KEY", "map", {n: i for i, n in enumerate("NO_SENSE RECOVERED_ERROR NOT_READY MEDIUM_ERROR HARDWARE_ERROR ILLEGAL_REQUEST UNIT_ATTENTION DATA_PROTECT BLANK_CHECK VENDOR_SPECIFIC COPY_ABORTED "
                                                                                       "ABORTED_COMMAND RESERVED VOLUME_OVERFLOW MISCOMPARE COMPLETED".split())}),
    "reserve-out action": ("infi.asi.cdb.persist.output", "PERSISTENT_RESERVE_OUT_SERVICE_ACTION_CODES", "attr", {n: i for i, n in enumerate(
        "REGISTER RESERVE RELEASE CLEAR PREEMPT PREEMPT_AND_ABORT REGISTER_AND_IGNORE_EXISTING_KEY REGISTER_AND_MOVE REPLACE_LOST_RESERVATION".split())}),
    "reserve-in action": ("infi.asi.cdb.persist.input", "PERSISTENT_RESERVE_IN_SERVICE_ACTION_CODES", "attr", {n: i for i, n in enumerate("READ_KEYS READ_RESERVATION REPORT_CAPABILITIES READ_FULL_STATUS".split())}),
    "reservation type": ("infi.asi.cdb.persist.output", "PERSISTENT_RESERVE_OUT_TYPES", "attr", dict(WRITE_EXCLUSIVE=1, EXCLUSIVE_ACCESS=3, WRITE_EXCLUSIVE_REGISTRANTS_ONLY=5, EXCLUSIVE_ACCESS_REGISTRANTS_ONLY=6,
                                                                                                     WRITE_EXCLUSIVE_ALL_REGISTRANTS=7, EXCLUSIVE_ACCESS_ALL_REGISTRANTS=8)),
    "element type": (CONF, "", "attr", {"ELEMENT_TYPE_" + n: i for i, n in enumerate("UNSPECIFIED DEVICE_SLOT POWER_SUPPLY COOLING TEMPERATURE_SENSOR DOOR AUDIBLE_ALARM ES_CONTROLLER SCC_CONTROLLER NONVOLATILE_CACHE INVALID_OPERATION_REASON "
                     "UNINTERRUPTIBLE_POWER_SUPPLY DISPLAY KEYPAD ENCLOSURE SCSI_PORT_TRANSCEIVER LANGUAGE COMMUNICATION_PORT VOLTAGE_SENSOR CURRENT_SENSOR SCSI_TARGET_PORT SCSI_INITIATOR_PORT SUBENCLOSURE ARRAY_DEVICE_SLOT SAS_EXPANDER "
                     "SAS_CONNECTOR".split())}),
}

PLATFORMS = ["linux_sg", "linux_ioctl", "solaris", "aix", "aix_libc", "windows", "windows_async"]
TRANSFERS = [{"read": 8}, {"read": 0}, {"write": "0102"}]
statuses = st.one_of(st.sampled_from([0, 4, 8, 0x18, 0x28, 0x30, 0x40]), u8)


@st.composite
def failure(draw):
    p = draw(st.sampled_from(PLATFORMS))
    if p.startswith("linux"):
        comp = dict(status=draw(statuses), host=draw(st.one_of(st.integers(0, 15), u16)), driver=draw(st.one_of(st.integers(0, 9), u8)))
    elif p == "solaris":
        comp = dict(status=draw(statuses), reason=draw(st.one_of(st.integers(0, 6), u8)), rqstatus=draw(st.one_of(st.just(0), statuses)))
    elif p.startswith("aix"):
        comp = draw(st.one_of(st.builds(lambda v, s, a, e: dict(validity=v, status=s, adapter=a, errno_with_status=e), st.one_of(st.sampled_from([1, 2]), u8), statuses, st.one_of(st.integers(0, 16), u8), st.sampled_from([5, 22])),
                              st.builds(lambda e: dict(oserr=22, einval=e), st.one_of(st.integers(1, 26), u16.filter(bool)))))
    else:
        comp = dict(status=draw(st.integers(1, 255)))
    return dict(kind="error", platform=p, comp=comp, x=draw(st.sampled_from(TRANSFERS)))


def strategy():
    return failure()


def fixed():
    for name in sorted(TABLES):
        yield dict(kind="table", name=name)
    for name in sorted(NUMBERS):
        yield dict(kind="numbers", name=name)
    for p in PLATFORMS:
        def one(k, **comp):
            return dict(kind="error", platform=p, comp=comp, x=TRANSFERS[k % 3])
        for s in range(256):
            if p.startswith("linux"):
                yield one(s, status=s, host=s % 13, driver=(s // 13) % 7)
                yield one(s, host=s)
                yield one(s, driver=s, host=s % 13)
            elif p == "solaris":
                yield one(s, status=s, reason=s % 6)
                yield one(s, reason=s)
                yield one(s, rqstatus=s)
            elif p.startswith("aix"):
                yield one(s, validity=1, status=s, adapter=s % 17, errno_with_status=5)
                yield one(s, validity=2, adapter=s, status=s & 0x18, errno_with_status=5)
                yield one(s, validity=s or 1, status=8, adapter=3)
                yield one(s, oserr=22, einval=s + 1)
            elif s:
                yield one(s, status=s)


TOKEN = re.compile(r"\b([A-Z][A-Z0-9]*(?:_[A-Z0-9]+)+)\b")
PAIR = re.compile(r"\b([A-Z][A-Z0-9]*(?:_[A-Z0-9]+)+)\W{0,3}(0x[0-9a-fA-F]+)")
LABEL = re.compile(r"\b(driver|host|adapter|bus)[ _]status\s*[:=]?\s*([A-Z][A-Z0-9]*(?:_[A-Z0-9]+)+)")
FAMILY = {"driver": "DRIVER_", "host": "DID_", "adapter": "SCSI_", "bus": "SCSI_STATUS_"}


def states(text, value, name):
    """The text gives the number, and the name next to a number if it has one."""
    numbers = [int(n, 16) for n in re.findall(r"0x([0-9a-fA-F]+)", text)] + [int(n) for n in re.findall(r"(?<![\w.])(\d+)\b(?!x)", text)]
    return value in numbers and (name is None or any(t.endswith(name) for t in TOKEN.findall(text)))


def judge_error(c, run):
    p, comp = c["platform"], c["comp"]
    obs, out = X.single(run, p, X.command(1, "28" + "00" * 9, c["x"], comp))
    what = "%s completed with %s" % (p, comp)
    if "error" not in out or X.has(out["error"], "AsiCheckConditionError", "AsiReservationConflictError", "AsiRequestQueueFullError"):
        return [p, "other"], False
    text = out["error"]["msg"]
    w = "%s: %r" % (what, text)
    facts = []          # (value, name) which the text must give
    near = []           # values which it may give as well
    if p.startswith("linux"):
        s, h, d = comp.get("status", 0), comp.get("host", 0), comp.get("driver", 0)
        low = d & 15
        if s:
            facts.append((s, SCSI.get(s)))
        if low or d and not s and not h:
            facts.append((low, DRIVER.get(low)) if low else (d, None))
            if not low:
                facts = [f for f in facts if f[0] != d]
        if h:
            facts.append((h, HOST.get(h)))
        near = [(s, SCSI.get(s)), (low, DRIVER.get(low)), (h, HOST.get(h)), (d, "SUGGEST_" + {0x10: "RETRY", 0x20: "ABORT", 0x30: "REMAP", 0x40: "DIE", 0x80: "SENSE"}.get(d & 0xf0, "-"))]
    elif p == "solaris":
        s, r, q = comp.get("status", 0), comp.get("reason", 0), comp.get("rqstatus", 0)
        facts = [(v, None) for v in ([s] if s else []) + ([r] if r else [])] or [(q, None)]
        near = [(s, SCSI.get(s)), (q, SCSI.get(q))]
    elif p.startswith("aix"):
        if "einval" in comp:
            facts = [(comp["einval"], EINVAL.get(comp["einval"]))]
        else:
            v, s, a = comp["validity"], comp.get("status", 0) & 0x1e, comp.get("adapter", 0)
            facts = [(v, VALIDITY.get(v))] if v else []
            if v == 1:
                facts.append((s, SCSI.get(s)))
            elif v == 2:
                facts.append((a, ADAPTER.get(a)))
            near = facts + [(s, SCSI.get(s)), (comp.get("status", 0), SCSI.get(comp.get("status", 0))), (a, ADAPTER.get(a))]
    else:
        facts = [(comp["status"], None)]
        near = [(comp["status"], SCSI.get(comp["status"]))]
    for value, name in facts:
        expect(states(text, value, name), "%s does not state %s%s", w, hex(value), " " + name if name else "")
    names = [n for _, n in facts + near if n]
    for token in TOKEN.findall(text):
        expect(any(token.endswith(n) for n in names), "%s names %s, which it is not", w, token)
    for token, number in PAIR.findall(text):
        expect(any(token.endswith(n) and v == int(number, 16) for v, n in facts + near if n), "%s: %s is not %s", w, token, number)
    for label, token in LABEL.findall(text):
        expect(FAMILY[label] in token, "%s: %s is not a %s status", w, token, label)
    return [p], any(n for _, n in facts)


def words(s):
    return " %s " % " ".join(re.findall(r"[a-z]+|[0-9]+", s.lower()))


def matches(name, pattern):
    text = words(name)
    for alt in pattern.split("|"):
        at = 0
        if alt.startswith("^"):
            if not text.startswith(" " + alt[1:].strip()):
                continue
            return True
        end = alt.endswith("$")
        for word in words(alt).split():
            at = text.find(word, at)
            if at < 0:
                break
            at += len(word)
        else:
            if not end or text.rstrip().endswith(words(alt).split()[-1]):
                return True
    return False


def judge(c, run):
    if c["kind"] == "error":
        return judge_error(c, run)
    if c["kind"] == "numbers":
        module, attr, how, want = NUMBERS[c["name"]]
        keys = sorted(want)
        got = run("lookups", module=module, attr=attr, keys=keys, how=how)
        if got is None:
            return ["moved"], False
        for k, v in zip(keys, got):
            expect(v == want[k], "%s %s is %s, expected %s", c["name"], k, v, want[k])
        return ["numbers"], True
    module, attr, want, keys = TABLES[c["name"]]
    keys = [list(k) if isinstance(k, tuple) else k for k in keys]
    got = run("lookups", module=module, attr=attr, keys=keys, how="map2" if isinstance(keys[0], list) else "map")
    if got is None:
        return ["moved"], False
    seen = {}
    for k, v in zip(keys, got):
        key = tuple(k) if isinstance(k, list) else k
        w = "%s %s" % (c["name"], key if isinstance(key, tuple) else hex(key))
        if key in want:
            expect(isinstance(v, str) and matches(v, want[key]), "%s is named %r, expected %r", w, v, want[key])
        elif v is not None:
            expect(not any(matches(v, p) for p in want.values() if len(p) > 3 and p != "reserved"), "%s is not assigned but is named %r", w, v)
        if v is not None:
            expect(v not in seen or "reserved" in v.lower(), "%s and %s are both named %r", w, seen.get(v), v)
            seen[v] = w
    return ["table"], True
