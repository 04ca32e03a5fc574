from hypothesis import strategies as st
from ..core import expect
from ..gen import ints, u8
from .. import execs as X
from .p23 import SENSES

ID = "P28"
QUICK, THOROUGH = 5000, 100000
TECHNIQUE = "property-based testing of the executer against a fake DK_PASSTHRU ioctl (through fcntl and through libc), statuses enumerated and histories generated"
RULE = ("A case is a history of one to four blocking commands on one executer over a fake DK_PASSTHRU ioctl, reached through fcntl or through libc, each completed with "
        "generated validity, bus status, adapter status, invalid-argument code, sense data and errno; request and outcome of each must fit the decision table whatever "
        "happened before. Non-trivial when some command fails.")
ASSUMPTIONS = ["The fake driver uses the 64-bit layout of struct sc_passthru."]
OSERRS = [1, 4, 5, 6, 11, 12, 16, 19, 22, 25, 110] + list(range(1, 134))


def comp():
    status = st.one_of(st.sampled_from([2, 2, 8, 0x18, 0x28, 0x42, 0xe2]), u8)
    scsi = st.fixed_dictionaries(dict(validity=st.just(1), status=status, sense=X.sense_bytes, gen=st.integers(1, 999), aset=st.sampled_from([0, 1]), errno_with_status=st.sampled_from(OSERRS)))
    adapter = st.fixed_dictionaries(dict(validity=st.one_of(st.just(2), st.integers(2, 255)), adapter=st.one_of(st.integers(0, 15), u8), status=u8, atype=st.sampled_from([0, 1, 2]), errno_with_status=st.sampled_from(OSERRS)))
    quiet = lambda s: s.map(lambda c: {k: v for k, v in c.items() if k != "errno_with_status"})
    invalid = st.builds(lambda e, v, s: dict(oserr=22, einval=e, validity=v, status=s), st.one_of(st.integers(1, 24), ints(1, 65535)), st.sampled_from([0, 0, 1, 2]), st.sampled_from([0, 2]))
    none = st.builds(lambda e, s, a: dict(oserr=e, validity=0, status=s, adapter=a), st.sampled_from(OSERRS), st.sampled_from([0, 2]), st.sampled_from([0, 3]))
    return st.one_of(scsi, quiet(scsi), adapter, quiet(adapter), invalid, none, X.replies(), X.replies(), st.just({"devraise": 1}))


def strategy():
    one = lambda i: st.builds(lambda cdb, x, c: X.command(i, cdb, x, c), st.one_of(X.cdbs(32), st.integers(1, 64).map(lambda n: bytes((n * 7 + i) & 255 for i in range(n)).hex())), X.transfer(70000), comp())
    return st.fixed_dictionaries(dict(platform=st.sampled_from(["aix", "aix_libc"]), cmds=X.calls(one), timeout=st.one_of(st.none(), ints(0, 0xFFFFFFFF))))


def fixed():
    ok = dict(id=9, cdb="28" + "00" * 9, read=16, comp={"gen": 5})
    xs = [{"read": 8}, {"read": 0}, {"write": "0102"}]

    for p in ("aix", "aix_libc"):
        def two(k, **c):
            return dict(platform=p, cmds=[X.command(0, "2a" + "00" * 9, xs[k % 3], dict(c, sense=SENSES[1 + k % 3], gen=k % 50 + 1)), ok], timeout=None)
        for s in range(256):
            yield two(s, validity=1, status=s, errno_with_status=5)
            yield two(s, validity=1, status=s)
            yield two(s, validity=2, adapter=s, errno_with_status=5)
            yield two(s, validity=s, status=2, adapter=3, errno_with_status=5)
        for n in range(1, 65):
            yield dict(platform=p, cmds=[dict(id=0, cdb=bytes((n + i) & 255 for i in range(n)).hex(), read=n, comp={"gen": n})], timeout=n - 1)
        for k in range(1, 26):
            yield two(k, oserr=22, einval=k)
            yield two(k, oserr=5 + k % 3)
        for e in range(1, 134):
            yield two(e, oserr=e)
            yield two(e, validity=1, status=8, errno_with_status=e)


def allowed(cmd):
    c = cmd["comp"]
    if c.get("devraise"):
        return {"other:MyDeviceError"}
    validity, status = c.get("validity", 0), c.get("status", 0)
    failed = "oserr" in c or "errno_with_status" in c
    if failed and c.get("einval"):
        return {"os"}
    if validity == 0:
        return {"os"} if failed else {"ok"}
    if validity == 1:
        useful = status & 0x1e
        if useful == 2:
            return {"cc"}
        if useful & 2:
            return {"cc", "err"}
        if useful == 0x18:
            return {"err", "rc"}
        if useful == 0 and not failed:
            return {"err", "ok"}
    return {"err"}


def request_check(c):
    def request(r, cmd, w):
        expect(r["request"] == 23, "%s: ioctl request is not DK_PASSTHRU", w)
        expect(r["version"] == 2, "%s: structure version", w)
        expect(r["cdb"] == cmd["cdb"] and r["rest_zero"], "%s: descriptor block differs", w)
        expect(r["timeout"] == (30 if c["timeout"] is None else c["timeout"]), "%s: timeout is not the configured one", w)
        expect(r["has_sense"] and r["sense_len"] >= 18, "%s: no sense buffer", w)
        X.check_kind(r, cmd, w)
    return request


def judge(c, run):
    kinds = X.run_calls(run, c["platform"], c["cmds"], dict(timeout=c["timeout"]), request_check(c), allowed, X.plain_result, "DK_PASSTHRU history (%s)" % c["platform"])
    return sorted(set(kinds)), any(k != "ok" for k in kinds)
