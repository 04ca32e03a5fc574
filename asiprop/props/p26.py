from hypothesis import strategies as st
from ..gen import ints, u8, u16
from .. import execs as X
from .p23 import table, SENSES

ID = "P26"
QUICK, THOROUGH = 5000, 100000
TECHNIQUE = "property-based testing of the executer against a fake SG_IO ioctl, statuses enumerated and histories generated"
RULE = ("A case is a history of one to four blocking commands on one executer over a fake SG_IO ioctl, each completed with generated SCSI, host and driver statuses, sense "
        "data, or an operating system error; request and outcome of each must fit the decision table whatever happened before. Non-trivial when some command fails.")
OSERRS = [1, 4, 5, 6, 11, 12, 16, 19, 22, 25, 110] + list(range(1, 134))


def comp():
    status = st.one_of(st.sampled_from([0, 0, 0, 2, 8, 0x18, 0x18, 0x28, 0x40]), u8)
    host = st.one_of(st.sampled_from([0, 0, 0]), st.integers(0, 0x1f), u16)
    driver = st.one_of(st.sampled_from([0, 0, 0, 8, 6]), u8)
    full = st.fixed_dictionaries(dict(status=status, host=host, driver=driver, sense=X.sense_bytes, gen=st.integers(1, 999), resid=st.sampled_from([0, 0, 3, 4000])))
    return st.one_of(full, full, X.replies(), st.sampled_from(OSERRS).map(lambda e: {"oserr": e}), st.just({"devraise": 1}))


def strategy():
    one = lambda i: st.builds(lambda cdb, x, c: X.command(i, cdb, x, c), X.cdbs(32), X.transfer(70000), comp())
    return st.fixed_dictionaries(dict(cmds=X.calls(one), timeout=st.one_of(st.none(), ints(0, 0xFFFFFFFF))))


def fixed():
    ok = dict(id=9, cdb="28" + "00" * 9, read=16, comp={"gen": 5})
    xs = [{"read": 8}, {"read": 0}, {"write": "0102"}]

    def two(k, **c):
        return dict(cmds=[X.command(0, "2a" + "00" * 9, xs[k % 3], dict(c, sense=SENSES[1 + k % 3], gen=k % 50 + 1)), ok], timeout=None)
    for s in range(256):
        yield two(s, status=s)
        yield two(s, driver=s)
        yield two(s, driver=s, status=2)
    for h in range(32):
        yield two(h, host=h)
        yield two(h, host=h, status=8)
    for n in range(1, 41):
        yield dict(cmds=[dict(id=0, cdb=bytes((n + i) & 255 for i in range(n)).hex(), read=n, comp={"gen": n})], timeout=n - 1)
    for e in OSERRS:
        for k in range(3 if e < 30 else 1):
            yield dict(cmds=[X.command(0, "00" * 6, xs[k], {"oserr": e}), ok, X.command(2, "00" * 6, xs[k], {"oserr": e}), ok], timeout=None)


def allowed(cmd):
    c = cmd["comp"]
    if "oserr" in c:
        return {"rawos", "os"}
    if c.get("devraise"):
        return {"other:MyDeviceError"}
    return table(c.get("status", 0), c.get("host", 0), c.get("driver", 0))


def request_check(c):
    def request(r, cmd, w):
        from ..core import expect
        expect(r["request"] == 0x2285, "%s: ioctl request is not SG_IO", w)
        X.check_sg_request(r, cmd, c["timeout"], w)
    return request


def judge(c, run):
    kinds = X.run_calls(run, "linux_ioctl", c["cmds"], dict(timeout=c["timeout"]), request_check(c), allowed, X.plain_result, "SG_IO history")
    return sorted(set(kinds)), any(k != "ok" for k in kinds)
