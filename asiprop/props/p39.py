from hypothesis import strategies as st
from ..core import expect, brief
from .. import execs as X
from . import p26, p27, p28, p29

ID = "P39"
QUICK, THOROUGH = 4000, 100000
TECHNIQUE = "model-based (stateful) property testing of the pass-through executers of every platform with queues of several requests, over fake kernels"
RULE = ("A case is a history of sends (with callbacks that record, are absent, raise, or send again), blocking calls and waits on one executer of any ioctl platform with a queue of none to six requests; "
        "each request is completed with generated data, status, sense data or operating system errors. The requests, the outcome of every send and call and exactly one callback per accepted request must be "
        "its own command's, whatever else is queued. Non-trivial when two or more requests were queued together.")
ASSUMPTIONS = ["The order in which queued requests are handed back is not specified; which requests are still queued after a callback raised is then known up to those without a recording callback."]
TABLE = {"linux_ioctl": p26, "solaris": p27, "aix": p28, "aix_libc": p28, "windows": p29, "windows_async": p29}
DEFAULT_Q = {"windows": 15, "windows_async": 15}


def returned(platform, cmd):
    return p29.result(cmd) if platform.startswith("windows") else X.plain_result(cmd)


@st.composite
def case(draw):
    platform = draw(st.sampled_from(sorted(TABLE)))
    mod = TABLE[platform]
    ids = iter(range(1, 1000))
    small = st.one_of(st.integers(0, 60).map(lambda n: {"read": n}), st.integers(0, 40).map(lambda n: {"write": [n, n]}), X.transfer(5000))

    def cmd(depth=0):
        comp = draw(mod.comp() if draw(st.integers(0, 2)) == 0 else X.replies())
        c = X.command(next(ids), draw(X.cdbs()), draw(small), comp)
        c["cb"] = draw(st.sampled_from(["record"] * 5 + ["none", "raise", "resend"]))
        if c["cb"] == "resend":
            if depth > 2:
                c["cb"] = "record"
            else:
                c["then"] = cmd(depth + 1)
        return c
    steps = []
    for _ in range(draw(st.integers(1, 12))):
        do = draw(st.sampled_from(["send"] * 5 + ["call", "call", "wait"]))
        if do == "wait":
            steps.append({"do": "wait"})
        else:
            c = cmd()
            if do == "call":
                c.pop("cb")
                c.pop("then", None)
            steps.append({"do": do, "cmd": c})
    steps += [{"do": "wait"}] * (1 + str(steps).count("'raise'"))
    return dict(platform=platform, q=draw(st.sampled_from([None, 0, 1, 2, 2, 3, 4, 6, 6])), timeout=None if platform.startswith("windows") else draw(st.sampled_from([None, 1, 7, 3000])), steps=steps, adapter=draw(st.booleans()))


def strategy():
    return case()


def fixed():
    cdb = "28" + "00" * 9
    bad = {"linux_ioctl": [{"status": 8}, {"oserr": 5}], "solaris": [{"status": 8}, {"oserr": 5}], "aix": [dict(validity=1, status=8, errno_with_status=5), dict(oserr=22, einval=11)], "windows": [{"status": 8}, {"winerr": 5}]}
    for platform in sorted(TABLE):
        bads = bad["windows" if platform.startswith("windows") else "aix" if platform.startswith("aix") else platform]
        for n in range(1, 7):
            for fail in range(0, n + 1):
                for kind in (0, 1):
                    sends = []
                    for i in range(n):
                        comp = dict(bads[kind]) if i + 1 == fail else {"gen": i + 3}
                        xfer = [{"read": 5 + 3 * i}, {"write": [i, 4 + i]}, {"read": 0}][i % 3]
                        sends.append({"do": "send", "cmd": X.command(i + 1, cdb, xfer, comp, cb="record")})
                    call = {"do": "call", "cmd": X.command(50, cdb, {"read": 33}, {"gen": 91})}
                    more = {"do": "send", "cmd": X.command(51, cdb, {"read": 12}, {"gen": 92}, cb="record")}
                    for q in (None, n, n + 1, 6):
                        yield dict(platform=platform, q=q, timeout=None, steps=sends + [call, more, {"do": "wait"}, dict(call, cmd=dict(call["cmd"], id=52)), {"do": "wait"}], adapter=bool(n & 1))


def all_cmds(c):
    out = {}

    def add(x):
        out[x["id"]] = x
        if "then" in x:
            add(x["then"])
    for s in c["steps"]:
        if "cmd" in s:
            add(s["cmd"])
    return out


SEND_ERRORS = ("oserr", "devraise", "errno_with_status", "winerr")


def judge(c, run):
    platform, mod = c["platform"], TABLE[c["platform"]]
    q = DEFAULT_Q.get(platform, 1) if c["q"] is None else c["q"]
    obs = run("history", platform=platform, steps=c["steps"], opts=dict(max_queue_size=c["q"], timeout=c["timeout"], adapter=c["adapter"]))
    cmds = all_cmds(c)
    what = "%s, queue of %s, history %s" % (platform, q, brief(c["steps"], 900))
    pending, unseen, sent = [], [], []          # certainly queued; perhaps queued
    kinds, peak = set(), 0
    raised = None
    events = obs["events"]

    def outcome(cmd, kind, err, data, w, extra=()):
        want = mod.allowed(cmd)
        expect(kind in want, "%s: outcome %s (%s), expected %s", w, kind, brief(err, 300), "/".join(sorted(want)))
        if kind == "ok":
            expect(data in returned(platform, cmd), "%s: got %s, expected %s", w, brief(data, 300), brief(returned(platform, cmd)[0], 300))
        if kind == "cc":
            X.sense_ok(err, cmd["comp"].get("sense", ""), w)
        kinds.add(kind)

    def a_send(ident, out, w):
        """What a send may report; True when the request is queued."""
        cmd = cmds[ident]
        if "error" in out and X.kind_of(out) == "qf":
            expect(len(pending) + len(unseen) >= q, "%s: refused as full with %d of %d queued", w, len(pending), q)
            kinds.add("qf")
            return False
        expect(len(pending) < q, "%s: accepted with %d of %d queued", w, len(pending), q)
        sent.append(ident)
        if "ok" in out:
            return True
        expect(any(k in cmd["comp"] for k in SEND_ERRORS), "%s: raised %s", w, brief(out, 300))
        outcome(cmd, X.kind_of(out), out["error"], None, w)
        expect(X.kind_of(out) != "ok", "%s", w)
        return False

    for i, ev in enumerate(events):
        w = "%s: event %d %s" % (what, i, brief(ev, 300))
        if raised is not None:
            expect(ev[0] == "step", "%s: the exception of request %s's callback did not end the step", w, raised)
        if ev[0] == "cb":
            ident = ev[1]
            expect(ident in pending, "%s: callback of a request that is not queued", w)
            pending.remove(ident)
            cmd = cmds[ident]
            outcome(cmd, "ok" if ev[3] is None else X.kind_of({"error": ev[3]}), ev[3], ev[2], w)
            expect(ev[3] is None or ev[2] is None, "%s: both data and an error", w)
            if cmd["cb"] == "raise":
                raised = ident
        elif ev[0] == "nested":
            if a_send(ev[1], ev[2], w):
                (unseen if cmds[ev[1]]["cb"] == "none" else pending).append(ev[1])
        else:
            _, do, ident, out, full, n = ev
            if do == "wait":
                if raised is None:
                    expect("ok" in out, "%s: wait raised", w)
                    expect(not pending, "%s: requests %s are still queued", w, pending)
                    unseen[:] = []
                else:
                    expect("error" in out and X.has(out["error"], "MyDeviceError"), "%s: the callback's exception was lost", w)
            elif do == "send":
                expect(raised is None, "%s: a callback was made by a send", w)
                if a_send(ident, out, w):
                    (unseen if cmds[ident]["cb"] == "none" else pending).append(ident)
            elif raised is not None:
                expect("error" in out and X.has(out["error"], "MyDeviceError"), "%s: the callback's exception was lost", w)
                sent.append(ident)          # before the nested ones, see below
                unseen.append(ident)
            elif "error" in out and X.kind_of(out) == "qf" and n == 0:
                expect(len(pending) + len(unseen) >= q, "%s: refused as full with %d of %d queued", w, len(pending), q)
                kinds.add("qf")
            else:
                sent.append(ident)
                outcome(cmds[ident], X.kind_of(out), out.get("error"), out.get("ok"), w)
            low, high = len(pending), len(pending) + len(unseen)
            expect("ok" in full, "%s: is_queue_full raised", w)
            if low >= q or high < q:
                expect(bool(full["ok"]) == (low >= q), "%s: is_queue_full() is %s with %d of %d queued", w, brief(full), low, q)
            peak = max(peak, low)
            raised = None
    expect(raised is None and not pending, "%s: requests %s were never handed back", what, pending)
    expect(len([e for e in events if e[0] == "step"]) == len(c["steps"]), "%s: %d steps were done", what, len(events))
    expect(sorted(r["id"] for r in obs["requests"]) == sorted(sent), "%s: requests %s reached the device, expected %s", what, brief([r["id"] for r in obs["requests"]]), sent)
    check = mod.request_check(c)
    for r in obs["requests"]:
        cmd = cmds[r["id"]]
        check(r, cmd, "%s: request %s of %s" % (what, brief(r, 400), brief(cmd, 300)))
    return [platform] + sorted(kinds), peak > 1
