from hypothesis import strategies as st
from ..core import expect, brief, pattern
from ..gen import ints, u8, raw
from .. import execs as X
from .p23 import SENSES

ID = "P29"
QUICK, THOROUGH = 5000, 100000
TECHNIQUE = "property-based testing of the executer against fake kernel32 entry points (win32.py imported under stand-ins), statuses enumerated and histories generated"
RULE = ("A case is a history of sends, blocking calls and waits on one Windows executer (synchronous or overlapped file) over a fake DeviceIoControl that parses "
        "SCSI_PASS_THROUGH_DIRECT, transfers any number of bytes and completes with generated status, sense data or Windows errors, at once or later; every request and "
        "result is judged on its own. Non-trivial when something fails, a transfer is short, or two requests are outstanding together.")
ASSUMPTIONS = ["The fake kernel32 uses the 64-bit layout of SCSI_PASS_THROUGH_DIRECT; win32.py is imported with 32-bit c_ulong, as on Windows."]
NOTE = "A successful read of which nothing was transferred may be reported as nothing or as no bytes."
WINERRS = [1, 2, 5, 6, 21, 31, 55, 87, 121, 170, 995, 1117, 1167, 1235]
SPECIAL = (258, 996, 997)        # these say that nothing is complete yet


def comp():
    status = st.one_of(st.sampled_from([2, 2, 8, 0x18, 0x28, 4, 0x10, 0x14, 0x22]), st.integers(1, 255))
    bad = st.fixed_dictionaries(dict(status=status, sense=X.sense_bytes, gen=st.integers(1, 999)))
    short = raw(0, 80).map(lambda b: {"data": b.hex()})
    win = st.one_of(st.sampled_from(WINERRS), st.integers(1, 16000).filter(lambda e: e not in SPECIAL)).map(lambda e: {"winerr": e})
    plain = st.one_of(short, short, X.replies(), bad, bad, win, win.map(lambda c: dict(c, late=1)), st.integers(0, 40).map(lambda n: {"xfer": n, "gen": 5}))
    extra = st.fixed_dictionaries({}, optional=dict(immediate=st.just(1), stale_error=st.sampled_from([997, 5, 87])))
    return st.builds(lambda a, b: dict(a, **b), plain, extra)


@st.composite
def case(draw):
    n = draw(st.integers(1, 6))
    steps = []
    for i in range(n):
        cdb = draw(st.one_of(X.cdbs(16), X.cdbs(16), X.cdbs(16), st.integers(1, 20).map(lambda k: bytes((k * 7 + j) & 255 for j in range(k)).hex())))
        cmd = X.command(i, cdb, draw(X.transfer(70000)), draw(comp()))
        steps.append({"do": draw(st.sampled_from(["send", "call", "call"])), "cmd": cmd})
        if draw(st.integers(0, 3)) == 0:
            steps.append({"do": "wait"})
    steps.append({"do": "wait"})
    return dict(platform=draw(st.sampled_from(["windows", "windows_async"])), steps=steps, adapter=draw(st.booleans()))


def strategy():
    return case()


def fixed():
    ok = {"do": "call", "cmd": dict(id=9, cdb="28" + "00" * 9, read=16, comp={"gen": 5})}
    xs = [{"read": 8}, {"read": 0}, {"write": "0102"}]
    for p in ("windows", "windows_async"):
        def two(k, cdb="2a" + "00" * 9, x=None, **c):
            first = {"do": "call", "cmd": X.command(0, cdb, x or xs[k % 3], dict(dict(sense=SENSES[1 + k % 3], gen=k % 50 + 1), **c))}
            return dict(platform=p, steps=[first, ok, {"do": "wait"}], adapter=bool(k & 1))
        for s in range(256):
            yield two(s, status=s)
        for s in range(1, 41):
            yield two(s, cdb=bytes((s + i) & 255 for i in range(s)).hex())
        for e in WINERRS:
            for k in range(3):
                for extra in ({}, {"late": 1}, {"late": 1, "immediate": 1}):
                    yield two(k, winerr=e, **extra)
        for n in range(0, 20):
            yield two(n, x={"read": 12}, gen=0, data=bytes(range(1, n + 1)).hex())


def allowed(cmd):
    c = cmd["comp"]
    if len(cmd["cdb"]) > 32:
        return None
    if "winerr" in c:
        return {"os"}
    s = c.get("status", 0)
    if s == 2:
        return {"cc"}
    if s == 0x18:
        return {"err", "rc"}
    if s & 2:
        return {"err", "cc"}
    return {"err"} if s else {"ok"}


def result(cmd):
    if not X.reading(cmd):
        return [None]
    c, n = cmd["comp"], cmd["read"]
    data = pattern(c["gen"], n) if c.get("gen") else bytes.fromhex(c.get("data", ""))[:n]
    return [X.enc_data(data)] if data else [None, X.enc_data(b"")]


def check_outcome(kind, err, data, cmd, w):
    want = allowed(cmd)
    expect(kind in want, "%s: outcome %s (%s), expected %s", w, kind, brief(err, 300), "/".join(sorted(want)))
    if kind == "ok":
        expect(data in result(cmd), "%s: got %s, the device transferred %s", w, brief(data, 300), brief(result(cmd)[0], 300))
    if kind == "os":
        X.system_error_ok(err, cmd, w)
    if kind == "cc":
        X.sense_ok(err, cmd["comp"].get("sense", ""), w)


def request_check(c):
    def request(r, cmd, w):
        expect(r["code"] == 0x4d014, "%s: not IOCTL_SCSI_PASS_THROUGH_DIRECT", w)
        expect(r["length"] == 56 and r["insize"] >= 56 and r["outsize"] == r["insize"] and r["same"], "%s: structure length", w)
        expect(r["cdb"] == cmd["cdb"] and r["rest_zero"], "%s: descriptor block differs", w)
        expect(r["sense_len"] >= 18 and r["senseoff"] >= 56 and r["senseoff"] + r["sense_len"] <= r["insize"], "%s: no usable sense buffer", w)
        expect(r["timeout"] > 0 and r["pathetc"] == [0, 0, 0], "%s: timeout or address", w)
        expect(r["overlapped"] == int(c["platform"] == "windows_async"), "%s: overlapped", w)
        X.check_kind(r, cmd, w)
    return request


def judge(c, run):
    obs = run("history", platform=c["platform"], steps=c["steps"], opts=dict(adapter=c["adapter"]))
    cmds = {s["cmd"]["id"]: s["cmd"] for s in c["steps"] if "cmd" in s}
    what = "%s history" % c["platform"]
    expected, accepted, kinds = [], set(), set()
    waiting = set()
    together = False
    for s, ev in zip(c["steps"], [e for e in obs["events"] if e[0] == "step"]):
        if s["do"] == "wait":
            expect("ok" in ev[3], "%s: wait raised %s", what, brief(ev[3]))
            waiting = set()
            continue
        cmd = s["cmd"]
        w = "%s: %s of %s" % (what, s["do"], brief(cmd, 500))
        if allowed(cmd) is None:
            expect("error" in ev[3] and ev[5] == 0, "%s: a %d byte descriptor block does not fit, outcome %s with %d requests", w, len(cmd["cdb"]) // 2, brief(ev[3]), ev[5])
            kinds.add("unfit")
            continue
        expect(ev[5] == 1, "%s: %d requests were sent", w, ev[5])
        expected.append(cmd["id"])
        kind = X.kind_of(ev[3])
        if s["do"] == "call":
            check_outcome(kind, ev[3].get("error"), ev[3].get("ok"), cmd, w)
            kinds.add(kind)
        elif "winerr" in cmd["comp"]:
            expect(kind == "os", "%s: outcome %s, expected an operating system error", w, brief(ev[3]))
            kinds.add("os")
        else:
            expect(kind == "ok", "%s: raised %s", w, brief(ev[3]))
            accepted.add(cmd["id"])
            waiting.add(cmd["id"])
            together = together or len(waiting) > 1
        expect(ev[4] == {"ok": 0}, "%s: afterwards is_queue_full() is %s", w, brief(ev[4]))
    expect([r["id"] for r in obs["requests"]] == expected, "%s: requests %s, expected %s", what, brief([r["id"] for r in obs["requests"]]), expected)
    seen = [e[1] for e in obs["events"] if e[0] == "cb"]
    expect(sorted(seen) == sorted(accepted), "%s: callbacks of %s, expected one of each of %s", what, brief(seen), sorted(accepted))
    for e in obs["events"]:
        if e[0] == "cb":
            cmd = cmds[e[1]]
            kind = "ok" if e[3] is None else X.kind_of({"error": e[3]})
            check_outcome(kind, e[3], e[2], cmd, "%s: callback of %s" % (what, brief(cmd, 400)))
            kinds.add(kind)
    short = False
    for r in obs["requests"]:
        cmd = cmds[r["id"]]
        w = "%s: request %s of %s" % (what, brief(r, 400), brief(cmd, 300))
        request_check(c)(r, cmd, w)
        short = short or X.reading(cmd) and len(cmd["comp"].get("data", "")) // 2 < cmd["read"]
    return [c["platform"]] + sorted(kinds), bool(short or together or kinds - {"ok"})
