from hypothesis import strategies as st
from ..core import expect, brief, Violation
from ..gen import ints, u8, u16
from .. import execs as X

ID = "P23"
QUICK, THOROUGH = 6000, 150000
TECHNIQUE = "property-based testing of the executer against a fake SG kernel device, statuses enumerated and generated"
RULE = ("A case is one command completed with a SCSI status, host status, driver status, sense data and direction; every status byte, host code and driver code is "
        "enumerated alone and pairs are generated. The oracle is the decision table of the property. Non-trivial when some status is not zero.")
NOTE = ("Every status byte, host code 0..31 and driver byte is enumerated alone, combinations are sampled. A driver status with only suggestion bits, and status "
        "bytes that are not standard but contain the check condition bit, may be reported as either outcome; a status with host code 7 may be reported as queue full.")
PLATFORM = "linux_sg"


@st.composite
def case(draw):
    status = draw(st.one_of(st.sampled_from([0, 0, 0, 2, 2, 4, 8, 0x10, 0x14, 0x18, 0x18, 0x22, 0x28, 0x30, 0x40]), u8))
    host = draw(st.one_of(st.sampled_from([0, 0, 0]), st.integers(0, 0x1f), u16))
    driver = draw(st.one_of(st.sampled_from([0, 0, 0, 8, 8, 6, 0x18, 0x10, 0x28]), u8, u16))
    return dict(status=status, host=host, driver=driver, sense=draw(X.sense_bytes), x=draw(X.transfer(600)), cdb=draw(X.cdbs()), gen=draw(st.integers(1, 999)),
                resid=draw(st.sampled_from([0, 0, 4, 600])))


def strategy():
    return case()


SENSES = ["", "70000500000000" + "0a" + "00000000" + "2400" + "00000000", "f0000300001234" + "0a" + "00000000" + "1100" + "00000000", "720b4400" + "00000000"]


def fixed():
    xs = [{"read": 8}, {"read": 0}, {"write": "0102"}]
    n = 0

    def one(status=0, host=0, driver=0, k=0):
        return dict(status=status, host=host, driver=driver, sense=SENSES[1 + k % 3], x=xs[k % 3], cdb="28" + "00" * 9, gen=7, resid=0)
    for s in range(256):
        for k in range(3):
            yield one(status=s, k=k)
    for h in list(range(32)) + [1 << i for i in range(5, 16)] + [0xff, 0xff00, 0x700, 0x107, 0xffff]:
        for k in range(3):
            yield one(host=h, k=k)
            for s in (2, 8, 0x18, 0x28):
                yield one(host=h, status=s, k=k)
    for d in range(256):
        yield one(driver=d, k=d)
        yield one(driver=d, status=2, k=d)
        yield one(driver=d, status=0x18, k=d)
        yield one(driver=d, status=8, k=d)


def table(status, host, driver):
    """The acceptable outcomes: ok, cc (check condition), rc (reservation conflict), qf (queue full), err (another SCSI error)."""
    low = driver & 0x0f
    if status == 2:
        return {"cc"}
    sensed = driver & 8
    if status == 0 and host == 0:
        if low == 0:
            return {"ok"} if driver == 0 else {"ok", "err"}
        if low == 8:
            return {"cc"}
        return {"err", "cc"} if sensed else {"err"}
    out = {"rc"} if status == 0x18 else {"err"}
    if status & 2:
        out = {"err", "cc"}
    if sensed:
        out |= {"cc"}
    if status and host == 7:
        out |= {"qf", "err"}
    return out


def kind_of(outcome, what):
    if "ok" in outcome:
        return "ok"
    e = outcome["error"]
    if X.has(e, "AsiCheckConditionError"):
        return "cc"
    if X.has(e, "AsiReservationConflictError"):
        return "rc"
    if X.has(e, "AsiRequestQueueFullError"):
        return "qf"
    if X.has(e, "AsiSCSIError"):
        return "err"
    raise Violation("%s: raised %s instead of an error of the library" % (what, brief(e)))


def judge(c, run):
    comp = dict(status=c["status"], host=c["host"], driver=c["driver"], sense=c["sense"], gen=c["gen"], resid=c["resid"])
    cmd = X.command(1, c["cdb"], c["x"], comp)
    obs, outcome = X.single(run, PLATFORM, cmd)
    what = "status 0x%02x, host 0x%02x, driver 0x%02x, %s" % (c["status"], c["host"], c["driver"], brief(c["x"]))
    got = kind_of(outcome, what)
    want = table(c["status"], c["host"], c["driver"])
    expect(got in want, "%s: outcome %s (%s), expected %s", what, got, brief(outcome, 300), "/".join(sorted(want)))
    if got == "ok":
        expect(outcome["ok"] == X.enc_data(X.device_data(cmd) if X.reading(cmd) else None), "%s: returned %s", what, brief(outcome, 300))
    if got == "cc":
        X.sense_ok(outcome["error"], c["sense"], what)
    return [got], bool(c["status"] or c["host"] or c["driver"])
