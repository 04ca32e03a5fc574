from hypothesis import strategies as st
from ..core import expect
from ..gen import ints, u8
from .. import execs as X
from .p23 import SENSES

ID = "P27"
QUICK, THOROUGH = 5000, 100000
TECHNIQUE = "property-based testing of the executer against a fake USCSICMD ioctl, statuses enumerated and histories generated"
RULE = ("A case is a history of one to four blocking commands on one executer over a fake USCSICMD ioctl, each completed with generated status, transport reason, sense "
        "status and sense data, or an operating system error; request and outcome of each must fit the decision table whatever happened before. "
        "Non-trivial when some command fails.")
ASSUMPTIONS = ["The fake driver uses the LP64 little-endian layout of struct uscsi_cmd; both ways a driver may report a failed command (status alone, or EIO with the status) are generated."]
OSERRS = [1, 4, 5, 6, 11, 12, 16, 19, 22, 25, 110] + list(range(1, 134))


def comp():
    status = st.one_of(st.sampled_from([0, 0, 0, 2, 2, 8, 0x18, 0x28]), u8)
    reason = st.one_of(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 0xff]), u8)
    full = st.fixed_dictionaries(dict(status=status, reason=reason, rqstatus=st.sampled_from([0, 0, 0, 2, 8, 255]), sense=X.sense_bytes, gen=st.integers(1, 999), resid=st.sampled_from([0, 0, 3])))
    eio = full.filter(lambda c: c["status"] or c["reason"]).map(lambda c: dict(c, errno_with_status=5))
    return st.one_of(full, full, eio, X.replies(), st.sampled_from(OSERRS).map(lambda e: {"oserr": e}), st.just({"devraise": 1}))


def strategy():
    one = lambda i: st.builds(lambda cdb, x, c: X.command(i, cdb, x, c), X.cdbs(32), X.transfer(70000), comp())
    return st.fixed_dictionaries(dict(cmds=X.calls(one), timeout=st.one_of(st.none(), ints(0, 32767))))


def fixed():
    ok = dict(id=9, cdb="28" + "00" * 9, read=16, comp={"gen": 5})
    xs = [{"read": 8}, {"read": 0}, {"write": "0102"}]

    def two(k, **c):
        return dict(cmds=[X.command(0, "2a" + "00" * 9, xs[k % 3], dict(c, sense=SENSES[1 + k % 3], gen=k % 50 + 1)), ok], timeout=None)
    for s in range(256):
        yield two(s, status=s)
        yield two(s, reason=s)
        yield two(s, reason=s, status=2)
        yield two(s, rqstatus=s)
    for n in range(1, 41):
        yield dict(cmds=[dict(id=0, cdb=bytes((n + i) & 255 for i in range(n)).hex(), read=n, comp={"gen": n})], timeout=n - 1)
    for e in OSERRS:
        for k in range(3 if e < 30 else 1):
            yield dict(cmds=[X.command(0, "00" * 6, xs[k], {"oserr": e}), ok, X.command(2, "00" * 6, xs[k], {"oserr": e}), ok], timeout=None)


def allowed(cmd):
    c = cmd["comp"]
    if "oserr" in c:
        return {"rawos", "os"}
    if c.get("devraise"):
        return {"other:MyDeviceError"}
    status, reason, rq = c.get("status", 0), c.get("reason", 0), c.get("rqstatus", 0)
    if c.get("errno_with_status"):
        return {"rawos", "os", "err", "cc", "rc"} if status & 2 else {"rawos", "os", "err", "rc"}
    if status == 2:
        return {"cc"}
    if status & 2:
        return {"cc", "err"}
    if status:
        return {"err", "rc"} if status == 0x18 else {"err"}
    if reason:
        return {"err"}
    return {"ok"} if rq == 0 else {"err", "ok"}


def request_check(c):
    def request(r, cmd, w):
        expect(r["request"] == 0x4c9, "%s: ioctl request is not USCSICMD", w)
        expect(r["cdb"] == cmd["cdb"], "%s: descriptor block differs", w)
        expect(r["timeout"] == (30 if c["timeout"] is None else c["timeout"]), "%s: timeout is not the configured one", w)
        expect(r["flags"] & 0x10000 and r["has_sense"] and r["sense_len"] >= 18, "%s: no sense data is requested", w)
        expect(not r["flags"] & 0x4d000, "%s: reset or bus mode flags", w)
        X.check_kind(r, cmd, w)
    return request


def judge(c, run):
    kinds = X.run_calls(run, "solaris", c["cmds"], dict(timeout=c["timeout"]), request_check(c), allowed, X.plain_result, "USCSICMD history")
    return sorted(set(kinds)), any(k != "ok" for k in kinds)
