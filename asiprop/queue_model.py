"""Reference model of the Linux SG executer's request queue: histories of send/call/wait over a device that
completes outstanding requests in a scripted order.  Used by P24 and P25."""
from hypothesis import strategies as st
from .core import expect, brief
from . import execs as X

CC_SENSE = ["70000500000000" + "0a" + "00000000" + "2400" + "00000000", "f0000300001234" + "0a" + "00000000" + "1100" + "00000000"]


def completion(failures):
    good = X.replies()
    bad = st.one_of(st.just({"status": 8}), st.just({"status": 0x28}), st.just({"status": 0x18}), st.just({"host": 3}), st.just({"driver": 6}),
                    st.sampled_from(CC_SENSE).map(lambda s: {"status": 2, "sense": s}))
    return st.one_of(*([good] * 3 + [bad] * failures))


def error_class(comp):
    if comp.get("status") == 2:
        return "AsiCheckConditionError"
    if comp.get("status") == 0x18:
        return "AsiReservationConflictError"
    if comp.get("status") or comp.get("host") or comp.get("driver"):
        return "AsiSCSIError"
    return None


class Ids(object):
    def __init__(self):
        self.n = 0

    def next(self):
        self.n += 1
        return self.n


@st.composite
def history(draw, queue_sizes, send_failures, max_steps=14, orders=True):
    q = draw(queue_sizes)
    ids = Ids()
    small = st.one_of(st.integers(0, 40).map(lambda n: {"read": n}), st.integers(0, 30).map(lambda n: {"write": [n, n]}))

    def cmd(depth=0):
        comp = dict(draw(completion(1)))
        if send_failures and draw(st.integers(0, 5)) == 0:
            comp.update(draw(st.sampled_from([{"werr": 5}, {"werr": 33}, {"werr": 12}, {"wraise": "MyDeviceError"}, {"wraise": "KeyboardInterrupt"}])))
        c = X.command(ids.next(), draw(X.cdbs()), draw(small), comp)
        cb = draw(st.sampled_from(["record", "record", "record", "record", "none", "raise", "resend"]))
        c["cb"] = cb
        if send_failures and draw(st.integers(0, 11)) == 0:
            c["bad"] = draw(st.sampled_from(["cdb", "read", "write"]))
        if cb == "resend":
            if depth > 2:
                c["cb"] = "record"
            else:
                c["then"] = cmd(depth + 1)
        return c
    steps = []
    for _ in range(draw(st.integers(1, max_steps))):
        do = draw(st.sampled_from(["send", "send", "send", "send", "call", "wait"]))
        if do == "wait":
            steps.append({"do": "wait"})
        else:
            c = cmd()
            if do == "call":
                c.pop("cb")
                c.pop("then", None)
            steps.append({"do": do, "cmd": c})
    steps += [{"do": "wait"}] * draw(st.integers(1, 3))
    order = []
    if orders:
        event = st.one_of(*([st.integers(0, 40)] * 6 + [st.integers(1, 1 << 20).map(lambda t: {"unknown": t}), st.sampled_from([{"rerr": 5}, {"rerr": 4}, {"rerr": 11}])]))
        order = draw(st.lists(event, max_size=20))
    return dict(steps=steps, order=order, q=q, adapter=draw(st.booleans()))


class Raised(Exception):
    def __init__(self, names):
        self.names = names


class Model(object):
    """Executes a history on a table of outstanding requests; produces the expected events."""

    def __init__(self, case):
        self.q = 15 if case["q"] is None else case["q"]
        self.order = list(case["order"])
        self.outstanding = []           # (id, what to do on completion)
        self.events = []
        self.requests = []
        self.peak = 0
        self.reordered = self.oddities = 0

    def send(self, cmd, on_done):
        if len(self.outstanding) >= self.q:
            self.oddities += 1
            raise Raised(["Exception"] if cmd.get("bad") else ["AsiRequestQueueFullError"])
        if cmd.get("bad"):
            self.oddities += 1
            raise Raised(["Exception"])
        comp = cmd["comp"]
        self.requests.append(cmd["id"])
        if "werr" in comp:
            self.oddities += 1
            raise Raised(["OSError"])
        if "wraise" in comp:
            self.oddities += 1
            raise Raised([comp["wraise"]])
        self.outstanding.append((cmd, on_done))
        self.peak = max(self.peak, len(self.outstanding))

    def callback(self, cmd):
        cb = cmd.get("cb", "record")

        def run(data, err):
            self.events.append(["cb", cmd["id"], data, err])
            if cb == "raise":
                raise Raised(["MyDeviceError"])
            if cb == "resend":
                self.events.append(["nested", cmd["then"]["id"], self.outcome(lambda: self.send(cmd["then"], self.callback(cmd["then"])))])
        return None if cb == "none" else run

    def process(self):
        event = self.order.pop(0) if self.order else 0
        if isinstance(event, dict):
            self.oddities += 1
            raise Raised(["OSError"] if "rerr" in event else ["AsiInternalError"])
        index = event % len(self.outstanding)
        if index:
            self.reordered += 1
        cmd, done = self.outstanding.pop(index)
        err = error_class(cmd["comp"])
        data = None if err else X.enc_data(X.device_data(cmd) if X.reading(cmd) else None)
        if done is not None:
            done(data, err)

    def call(self, cmd):
        result = []
        self.send(cmd, lambda data, err: result.append((data, err)))
        while not result:
            self.process()
        data, err = result[0]
        if err:
            raise Raised([err])
        return data

    def wait(self):
        while self.outstanding:
            self.process()

    def outcome(self, f):
        try:
            return ("ok", f())
        except Raised as e:
            return ("error", e.names)

    def run(self, case):
        for s in case["steps"]:
            before = len(self.requests)
            if s["do"] == "send":
                out = self.outcome(lambda: self.send(s["cmd"], self.callback(s["cmd"])))
            elif s["do"] == "call":
                out = self.outcome(lambda: self.call(s["cmd"]))
            else:
                out = self.outcome(self.wait)
            self.events.append(["step", s["do"], s.get("cmd", {}).get("id"), out, len(self.outstanding) >= self.q, len(self.requests) - before])
        return self


def all_cmds(case):
    out = {}

    def add(c):
        out[c["id"]] = c
        if "then" in c:
            add(c["then"])
    for s in case["steps"]:
        if "cmd" in s:
            add(s["cmd"])
    return out


def same_outcome(want, got, call, what):
    if want[0] == "ok":
        expect("ok" in got, "%s: raised %s, expected success", what, brief(got))
        if call:
            expect(got["ok"] == want[1], "%s: returned %s, the device's answer to that request was %s", what, brief(got, 300), brief(want[1], 300))
    else:
        expect("error" in got, "%s: returned %s, expected %s", what, brief(got), want[1])
        expect(any(n in got["error"]["mro"] for n in want[1]), "%s: raised %s, expected %s", what, brief(got), want[1])


def judge(c, run):
    m = Model(c).run(c)
    obs = run("history", platform="linux_sg", steps=c["steps"], order=c["order"], opts=dict(max_queue_size=c["q"], adapter=c["adapter"]))
    cmds = all_cmds(c)
    what = "queue of %s, history %s, completions %s" % (m.q, brief(c["steps"], 900), brief(c["order"], 300))
    expect([r["id"] for r in obs["requests"]] == m.requests, "%s: the device saw requests %s, expected %s", what, brief([r["id"] for r in obs["requests"]]), brief(m.requests))
    for r in obs["requests"]:
        expect(not r["dup"], "%s: request %s uses the tag of an outstanding one", what, r["id"])
        expect(r["outstanding"] < m.q, "%s: request %s sent with %d outstanding", what, r["id"], r["outstanding"])
        expect(r["cdb"] == cmds[r["id"]]["cdb"], "%s: request %s is not the caller's command", what, r["id"])
    for i, want in enumerate(m.events):
        expect(i < len(obs["events"]), "%s: event %s never happened", what, brief(want, 300))
        got = obs["events"][i]
        expect(got[:2] == want[:2], "%s: event %d is %s, expected %s", what, i, brief(got, 300), brief(want, 300))
        w = "%s: event %d %s" % (what, i, brief(want[:3], 100))
        if want[0] == "cb":
            expect(got[2] == want[2], "%s: request %s got data %s, expected %s", w, want[1], brief(got[2]), brief(want[2]))
            expect((got[3] is None) == (want[3] is None) and (want[3] is None or want[3] in got[3]["mro"]), "%s: request %s got error %s, expected %s", w, want[1], brief(got[3]), want[3])
            if want[3] == "AsiCheckConditionError":
                X.sense_ok(got[3], cmds[want[1]]["comp"]["sense"], w)
        elif want[0] == "nested":
            same_outcome(want[2], got[2], False, w)
        else:
            expect(got[2] == want[2], "%s: got %s", w, brief(got, 200))
            same_outcome(want[3], got[3], want[1] == "call", w)
            if want[1] == "call" and want[3] == ("error", ["AsiCheckConditionError"]):
                pass
            expect(got[4] == {"ok": int(want[4])}, "%s: is_queue_full() is %s with the queue %s", w, brief(got[4]), "full" if want[4] else "not full")
            expect(got[5] == want[5], "%s: %d requests sent during the step, expected %d", w, got[5], want[5])
    expect(len(obs["events"]) == len(m.events), "%s: %d more events: %s", what, len(obs["events"]) - len(m.events), brief(obs["events"][len(m.events):], 400))
    expect(obs["left"] == len(m.outstanding), "%s: %d requests left outstanding, expected %d", what, obs["left"], len(m.outstanding))
    return m
