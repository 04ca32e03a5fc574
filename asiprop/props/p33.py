from hypothesis import strategies as st
from ..core import expect, brief, data_rec, pattern
from .. import execs as X

ID = "P33"
QUICK, THOROUGH = 1800, 20000
TECHNIQUE = "property-based testing of device files over real pipes and sockets, with generated contents, sizes, arrival delays and timeouts"
RULE = ("A case is a sequence of reads, writes, arrivals (before or during a read), silence, end of file and close on a device file over a real pipe, socket pair or pair that keeps messages apart (as sg devices do: one read takes one message); each "
        "read must return exactly the available prefix, wait for late data, or raise an operating system error after the timeout. In a third of the cases the clock is skipped "
        "while the file waits, so that timeouts of up to an hour and arrivals late in them are tried. Non-trivial when a read waits or is split.")
NOTE = ("In real time a timed-out read takes at least about its timeout and at most 20 s more; with the clock skipped it waits for no longer than half a second beyond its timeout. "
        "Data arriving within the timeout is always waited for.")
DEFAULT = 60.0
SLACK = 20000
# a process may have many files open, and then the device's has a large number
NUMBER = st.sampled_from([{}, {}, {}, {}, {"number": 255}, {"number": 1023}, {"number": 1024}, {"number": 3000}])


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["socket", "pipe_r", "pipe_w", "packets"]))
    big = kind in ("pipe_r", "pipe_w") and draw(st.integers(0, 4)) == 0          # a pipe which holds a megabyte
    room = 600000 if big else 30000
    actions, seed, pending, unread = [], 0, 0, 0
    size = st.one_of(st.integers(1, 300), st.sampled_from([1, 88, 4095, 4096, 4097, 20000] + ([65535, 65536, 65537, 100000, 131072, 250000] if big else [])))
    silent = draw(st.integers(0, 5)) == 0
    timeout = draw(st.sampled_from([0.01, 0.03, 0.08])) if silent else draw(st.sampled_from([None, 30, 45.5]))
    ended, sizes = False, []
    for _ in range(draw(st.integers(1, 8))):
        seed += 1
        options = []
        if kind != "pipe_w":
            if not ended and unread < room:
                options += ["arrive", "arrive"]
            if unread or ended:
                options += ["read", "read", "read"]
            elif silent:
                options += ["silence"]
            elif not ended:
                options += ["late"]
            if not ended and pending == 0 and draw(st.integers(0, 9)) == 0:
                options = ["end"]
        if kind != "pipe_r" and not ended:
            options += ["write"] if pending < room else []
            options += ["take"]
        act = draw(st.sampled_from(options or ["nothing"]))
        if act == "arrive":
            n = draw(size)
            actions.append(["peer_write", seed, n])
            unread += n
            sizes.append(n)
        elif act == "read":
            n = draw(size)
            actions.append(["read", n])
            unread -= min(n, unread) if kind != "packets" else sizes.pop(0) if sizes else 0
        elif act == "late":
            n, k = draw(st.integers(1, 4000)), draw(size)
            actions += [["late_write", seed, n, draw(st.sampled_from([1, 5, 15, 40]))], ["read", k]]
            unread += n - min(n, k) if kind != "packets" else 0
        elif act == "silence":
            actions.append(["read", draw(size)])
        elif act == "end":
            actions.append(["peer_close"])
            ended = True
        elif act == "write":
            n = draw(size if kind == "packets" else st.one_of(st.just(0), size))
            actions.append(["write", seed, n])
            pending += n
        elif act == "take":
            actions.append(["take"])
            pending = 0
    if draw(st.booleans()):
        actions.append(["close"])
    return dict(kind=kind, actions=actions, timeout=timeout, **({"big": 1} if big else {}), **draw(NUMBER))


@st.composite
def waits(draw):
    timeout = draw(st.sampled_from([None, None, 0, 0.01, 0.1, 0.5, 1, 1.5, 2, 3, 7.25, 10, 30, 45.5, 59, 61, 90, 120, 600, 3600]))
    limit = DEFAULT if timeout is None else timeout
    delay = st.sampled_from([0, 0.01, 0.05, 0.3, 0.7, 1, 1.2, 2.5, 5, 9, 20, 29, 31, 45, 58, 59, 62, 100] + [limit * k for k in (0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 1.01, 1.1, 1.5, 2)])
    actions, seed = [], 0
    for _ in range(draw(st.integers(1, 6))):
        act = draw(st.sampled_from(["read", "read", "later", "later", "idle"]))
        seed += 1
        if act == "later":
            actions.append(["later", seed, draw(st.sampled_from([1, 2, 88, 300, 4096])), round(draw(delay), 3)])
        elif act == "idle":
            actions.append(["idle", round(draw(delay), 3)])
        else:
            actions.append(["read", draw(st.sampled_from([1, 50, 88, 89, 4096, 10000]))])
    actions.append(["read", draw(st.sampled_from([1, 88, 10000]))])
    return dict(kind=draw(st.sampled_from(["socket", "pipe_r"])), waits=1, actions=actions, timeout=timeout, **draw(NUMBER))


def strategy():
    return st.one_of(case(), case(), waits())


def fixed():
    for n in (1, 2, 5):
        for k in (20, 88, 500):
            yield dict(kind="packets", actions=[["peer_write", i + 1, 88] for i in range(n)] + [["read", k] for i in range(n)], timeout=5)
    for number in (255, 256, 1023, 1024, 1025, 4096):
        for kind in ("socket", "pipe_r", "packets"):
            yield dict(kind=kind, actions=[["late_write", 1, 88, 15], ["read", 88], ["peer_write", 2, 88], ["read", 88], ["close"]], timeout=None, number=number)
        yield dict(kind="pipe_r", waits=1, actions=[["read", 88], ["later", 1, 88, 2], ["read", 88]], timeout=5, number=number)
    for kind in ("socket", "pipe_r"):
        for n in (1, 7, 88, 4096, 30000):
            for k in (1, 7, 88, 4096, 40000):
                yield dict(kind=kind, actions=[["peer_write", n, n], ["read", k], ["close"]], timeout=None)
        yield dict(kind=kind, actions=[["read", 88], ["peer_write", 1, 88], ["read", 88], ["read", 88], ["close"]], timeout=0.05)
        yield dict(kind=kind, actions=[["late_write", 3, 88, 1200], ["read", 88]], timeout=30)
        yield dict(kind=kind, actions=[["read", 88]], timeout=1.5)
        for timeout in (None, 0, 0.01, 0.5, 1, 2, 5, 30, 61, 600):
            limit = DEFAULT if timeout is None else timeout
            yield dict(kind=kind, waits=1, actions=[["read", 88], ["idle", 7], ["read", 88]], timeout=timeout)
            yield dict(kind=kind, waits=1, actions=[["later", 1, 88, limit + 1], ["read", 88], ["read", 88], ["idle", limit * 2], ["later", 2, 88, limit * 0.9], ["read", 88]], timeout=timeout)
            yield dict(kind=kind, waits=1, actions=[["later", 1, 88, max(limit - 0.6, 0)], ["read", 88]], timeout=timeout)
        yield dict(kind=kind, actions=[["peer_write", 1, 5], ["peer_close"], ["read", 88], ["read", 88], ["close"]], timeout=5)
    for n in (65535, 65536, 65537, 131072, 500000):
        yield dict(kind="pipe_w", actions=[["write", 5, n], ["take"], ["close"]], timeout=None, big=1)
        for k in (65535, 65536, 65537, 131072, 500000):
            yield dict(kind="pipe_r", actions=[["peer_write", n, n], ["read", k], ["close"]], timeout=None, big=1)
    for n in (0, 1, 88, 4096, 30000):
        yield dict(kind="pipe_w", actions=[["write", 5, n], ["take"], ["close"]], timeout=None)


def judge_waits(c, run):
    obs = run("unix_file_waits", kind=c["kind"], actions=c["actions"], timeout=c["timeout"], number=c.get("number", 0))
    if obs is None:         # it waits in a way that cannot be skipped
        return ["no-skipping"], False
    limit = DEFAULT if c["timeout"] is None else c["timeout"]
    due, waited, pos = {}, False, 0
    data = {i: pattern(act[1], act[2]) for i, act in enumerate(c["actions"]) if act[0] == "later"}
    for i, (act, o) in enumerate(zip(c["actions"], obs)):
        w = "%s with the clock skipped, timeout %s, %s: action %d %s" % (c["kind"], c["timeout"], brief(c["actions"], 600), i, act)
        if act[0] == "later":
            due[i] = o["now"] + act[3]
        elif act[0] == "read":
            before, after = (sum(len(data[k]) for k in o["arrived"][j]) for j in (0, 1))
            stream = b"".join(data[k] for k in o["arrived"][1])
            expect(o.get("error", {}).get("type") != "HangsForever", "%s: it waits for ever", w)
            expect(o["skipped"] <= limit + 0.5, "%s: it waited for %.2f s", w, o["skipped"])
            first = min([t for k, t in due.items() if k not in o["arrived"][0]] or [1e12]) - o["now"]
            if pos < before or first <= limit - 0.5:
                expect("data" in o, "%s: raised %s after %.2f s although data %s", w, brief(o.get("error")), o["t"], "is there" if pos < before else "comes after %.2f s" % first)
            elif first >= limit + 1:
                expect("error" in o, "%s: returned %s though nothing arrived", w, brief(o.get("ok")))
            if "error" in o:
                expect(X.has(o["error"], "OSError"), "%s: raised %s, expected an operating system error", w, brief(o["error"]))
                expect(o["t"] >= limit * 0.95 - 0.01, "%s: gave up after %.3f s", w, o["t"])
            else:
                got = bytes.fromhex(o["data"]) if o["data"] is not None else None
                expect(got is not None and stream[pos:].startswith(got), "%s: returned %s, expected a part of %s", w, brief(o["ok"], 200), brief(data_rec(stream[pos:]), 200))
                low, high = min(act[1], max(before - pos, 1)), min(act[1], after - pos)
                expect(low <= len(got) <= high, "%s: returned %d bytes of %d to %d there", w, len(got), before - pos, after - pos)
                pos += len(got)
            waited = waited or o["skipped"] > 0
    return ["clock-skipped"], waited


def judge(c, run):
    if c.get("waits"):
        return judge_waits(c, run)
    obs = run("unix_file", kind=c["kind"], actions=c["actions"], timeout=c["timeout"], big=c.get("big", 0), number=c.get("number", 0))
    if obs is None:         # no pipe of this size to be had here
        return ["no-big-pipe"], False
    what = "%s, timeout %s, %s" % (c["kind"], c["timeout"], brief(c["actions"], 600))
    stream, sent, ended, late, waits, packets = b"", b"", False, False, False, []
    for i, (act, o) in enumerate(zip(c["actions"], obs)):
        w = "%s: action %d %s" % (what, i, act)
        if act[0] in ("peer_write", "late_write"):
            if c["kind"] == "packets":      # each read takes one of them
                packets.append(pattern(act[1], act[2]))
                stream = packets[0]
            else:
                stream += pattern(act[1], act[2])
            late = act[0] == "late_write"
        elif act[0] == "peer_close":
            ended = True
        elif act[0] == "read":
            if stream or ended:
                expect("ok" in o, "%s: raised %s although data %s", w, brief(o.get("error")), "arrives" if late else "is there")
                want = stream[:act[1]]
                expect(o["ok"] == data_rec(want), "%s: returned %s, expected %s", w, brief(o["ok"], 200), brief(data_rec(want), 200))
                waits = waits or late or len(want) < len(stream)
                stream = stream[len(want):]
                if packets:
                    packets.pop(0)
                    stream = packets[0] if packets else b""
            else:
                expect("error" in o, "%s: returned %s though nothing arrived", w, brief(o.get("ok")))
                expect(X.has(o["error"], "OSError"), "%s: raised %s, expected an operating system error", w, brief(o["error"]))
                ms = c["timeout"] * 1000
                expect(ms * 0.9 - 2 <= o["s"] <= ms + SLACK, "%s: gave up after %d ms, the timeout is %d ms", w, o["s"], ms)
                waits = True
            late = False
        elif act[0] == "write":
            data = pattern(act[1], act[2])
            expect("ok" in o and o["ok"] in (len(data), None), "%s: wrote %s", w, brief(o))
            sent += data
        elif act[0] == "take":
            expect(o["ok"] == data_rec(sent), "%s: the other end got %s, written %s", w, brief(o["ok"], 200), brief(data_rec(sent), 200))
            sent = b""
        elif act[0] == "close":
            expect(o == {"ok": None, "still_open": 0}, "%s: %s", w, brief(o))
    return [c["kind"]], waits
