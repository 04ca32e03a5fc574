from hypothesis import strategies as st
from ..core import expect, brief
from ..gen import ints
from .. import execs as X

ID = "P22"
QUICK, THOROUGH = 4000, 80000
TECHNIQUE = "property-based testing of the executer against a fake SG kernel device that records each raw request"
RULE = ("A case is a batch of generated commands (descriptor block of 6..32 bytes, read of any length or write of any bytes) sent and completed in a generated "
        "order through the Linux SG executer with a generated timeout and queue size; each raw sg_io_hdr written is parsed field by field at its x86-64 offsets. "
        "Non-trivial when a command moves data.")
ASSUMPTIONS = ["The fake device parses sg_io_hdr by the LP64 little-endian layout of <scsi/sg.h>."]


@st.composite
def case(draw):
    n = draw(st.integers(1, 6))
    q = draw(st.sampled_from([None, 1, 2, 3, 15, 40]))
    steps, sent = [], 0
    for i in range(n):
        cmd = X.command(i, draw(X.cdbs(32)), draw(X.transfer(1 << 17)), draw(X.replies()))
        if sent + 1 >= (q or 15) and sent:
            steps.append({"do": "wait"})
            sent = 0
        if draw(st.booleans()):
            steps.append({"do": "call", "cmd": cmd})
        else:
            steps.append({"do": "send", "cmd": cmd})
            sent += 1
    steps.append({"do": "wait"})
    return dict(steps=steps, order=draw(st.lists(st.integers(0, 8), max_size=8)), timeout=draw(st.one_of(st.none(), ints(0, 0xFFFFFFFF))), q=q)


def strategy():
    return case()


def fixed():
    for n in range(1, 41):
        for x in ({"read": n * 7 % 50}, {"write": [n, n]}):
            cdb = bytes((i * 37 + n) & 0xFF for i in range(n)).hex()
            yield dict(steps=[{"do": "call", "cmd": X.command(0, cdb, x, {"gen": n})}], order=[], timeout=n - 1, q=None)
    for cdb in ("00" * 6, "ff" * 6, "00" * 16, "ff" * 16, "1200000000000000ff00", "ff0000000000000000000000000000ff"):
        for x in ({"read": 0}, {"read": 1}, {"write": ""}, {"write": "00"}, {"write": "0000ff00"}):
            yield dict(steps=[{"do": "call", "cmd": X.command(0, cdb, x, {"gen": 3})}], order=[], timeout=None, q=None)


def judge(c, run):
    obs = run("history", platform="linux_sg", steps=c["steps"], order=c["order"], opts=dict(timeout=c["timeout"], max_queue_size=c["q"]))
    cmds = {s["cmd"]["id"]: s["cmd"] for s in c["steps"] if "cmd" in s}
    what = "history %s" % brief(c, 500)
    for e in obs["events"]:
        if e[0] == "step":
            expect("ok" in e[3], "%s: step %s %s raised %s", what, e[1], e[2], brief(e[3]))
    expect([r["id"] for r in obs["requests"]] == [s["cmd"]["id"] for s in c["steps"] if "cmd" in s], "%s: requests %s", what, brief([r["id"] for r in obs["requests"]]))
    moved = False
    for r in obs["requests"]:
        cmd = cmds[r["id"]]
        w = "%s, request %s" % (brief(cmd, 300), brief(r, 300))
        X.check_sg_request(r, cmd, c["timeout"], w)
        expect(not r["dup"], "%s: the tag is already used by an outstanding request", w)
        moved = moved or bool(r["dlen"])
    for e in obs["events"]:
        if e[0] == "cb":
            cmd = cmds[e[1]]
            expect(e[3] is None and e[2] == X.enc_data(X.device_data(cmd) if X.reading(cmd) else None), "%s: callback of %s got %s", what, brief(cmd, 200), brief(e, 300))
        elif e[1] == "call":
            cmd = cmds[e[2]]
            expect(e[3]["ok"] == X.enc_data(X.device_data(cmd) if X.reading(cmd) else None), "%s: call of %s returned %s", what, brief(cmd, 200), brief(e[3], 300))
    return ["requests:%d" % len(obs["requests"])], moved
