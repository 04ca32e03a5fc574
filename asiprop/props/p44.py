from hypothesis import strategies as st
from ..core import expect, brief, HarnessError
from ..replies import R, hexed, page_bytes
from .. import execs as X
from . import p26, p27, p28, p29
from .p32 import BAD, CTX
from .p34 import WORKER_ENV     # noqa: a gevent whose sleep only reports
from .p41 import item, NAMES

ID = "P44"
QUICK, THOROUGH = 700, 30000
TECHNIQUE = "metamorphic property-based testing: generated work repeated in one process, what stays alive after each stretch of rounds compared"
RULE = ("A case is a round of work - commands of every kind over one executer of any platform (answered, failed, sent with and without callbacks, waited for), executer contexts opened and closed, "
        "coroutines through the overlapped-I/O reactor, replies and sense data decoded and shown - which is done over and over in a process of its own, with the same or with varying contents. The "
        "objects alive, and what containers and texts hold, must not grow from stretch to stretch; a growth is believed only if it goes on after 1200 rounds, so that a bounded cache is none. "
        "Non-trivial when a round contains several items or something failing.")
ASSUMPTIONS = ["Handles of Windows events, which the code never closes, are not counted.", "Memory outside the Python heap is not measured."]
NOTE = "Something retained in less than one round out of two of a stretch is not told from noise."
LATE = [{"winerr": 31, "late": 1}, {"status": 8, "late": 1}, {"gen": 7, "late": 1}]
COMPS = {"linux_sg": st.sampled_from(BAD["linux_sg"] + [{"wraise": "KeyboardInterrupt"}, {"wraise": "MyDeviceError"}]), "linux_ioctl": p26.comp(), "solaris": p27.comp(), "aix": p28.comp(), "aix_libc": p28.comp(),
         "windows": p29.comp(), "windows_async": p29.comp()}
STATE = {"linux_sg": "linux_sg", "linux_ioctl": "linux_dm", "solaris": "solaris", "aix": "aix", "aix_libc": "aix", "windows": "windows", "windows_async": "windows"}
ROUNDS = (6, 12, 1), (30, 30, 2), (1200, 60, 2)     # how many before the first look and between looks, and how many looks more; each when the one before sees growth


@st.composite
def queued(draw, platform):
    """Something sent, waited for, or refused before it is sent."""
    k = draw(st.integers(0, 5))
    if k == 0:
        return dict(do="wait")
    comp = draw(st.one_of(X.replies(), COMPS[platform]))
    c = X.command(0, draw(X.cdbs()), draw(X.transfer(200)), comp, do=draw(st.sampled_from(["send", "send", "call"])), cb=draw(st.sampled_from(["record", "record", "none", "raise"])))
    if k == 1:
        c["bad"] = draw(st.sampled_from(["cdb", "read", "write"]))
    if "late" in comp and platform != "windows_async":
        c["comp"] = {"gen": 5}
    return c


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["held"] * 5 + ["contexts"] * 2 + ["decodes"] * 2 + ["reactor"]))
    c = dict(kind=kind, vary=draw(st.integers(0, 1)), show=draw(st.integers(0, 1)))
    if kind == "held":
        c["platform"] = draw(st.sampled_from(sorted(STATE) + ["linux_sg"]))
        c["opts"] = dict(max_queue_size=draw(st.sampled_from([None, 1, 2, 5])))
        c["items"] = draw(st.lists(st.one_of(queued(c["platform"]), item(STATE[c["platform"]])), min_size=1, max_size=5))
    elif kind == "contexts":
        c["platform"] = draw(st.sampled_from(sorted(CTX) + ["linux"]))
        c["ctx"] = draw(st.sampled_from(CTX[c["platform"]]))
        c["path"] = draw(X.paths(c["platform"]))
        c["items"] = draw(st.lists(item(c["ctx"]), max_size=3))
        c["end"] = draw(st.sampled_from([None, None, {"raise": "ValueError"}, {"raise": "AsiCheckConditionError", "sense": "70000500" + "00" * 14}]))
    elif kind == "reactor":
        c["platform"] = "windows"
        c["items"] = draw(st.lists(st.builds(lambda cdb, x, comp, loose: X.command(0, cdb, x, comp, loose=loose), X.cdbs(), X.transfer(100), st.one_of(X.replies(), st.sampled_from(BAD["windows"] + LATE)), st.integers(0, 1)), min_size=1, max_size=4))
    else:
        c["platform"] = "linux"
        c["items"] = draw(st.lists(st.one_of(X.sense_bytes.map(lambda s: {"sense": s}), item("linux_sg")), min_size=1, max_size=4))
    for i in c["items"]:
        if "obj" in i or "conf" in i:
            i["reuse"] = draw(st.integers(0, 1))
    return c


def strategy():
    return case()


def fixed():
    read = lambda comp, **kw: X.command(0, "28" + "00" * 9, {"read": 16}, comp, **kw)
    for platform in sorted(STATE):
        for vary in (0, 1):
            base = dict(kind="held", platform=platform, opts={}, vary=vary, show=1)
            yield dict(base, items=[read({"gen": 3}), X.command(0, "2a" + "00" * 9, {"write": [3, 24]}, {})])
            for bad in BAD[STATE[platform]] + LATE * (platform == "windows_async"):
                for do in ("call", "send"):
                    yield dict(base, items=[read(bad, do=do, cb="record")])
            for bad in ("cdb", "read", "write"):
                yield dict(base, items=[read({}, bad=bad, do="send", cb="record")])
            yield dict(base, items=[read({"gen": 3}, do="send", cb=cb) for cb in ("record", "none", "raise")] + [dict(do="wait")])
            yield dict(base, opts=dict(max_queue_size=1), items=[read({"gen": 3}, do="send", cb=cb) for cb in ("record", "none", "raise")])
    for platform in sorted(CTX):
        for ctx in CTX[platform]:
            for items in ([], [read({"gen": 3})], [read(BAD[ctx][0], loose=1)]):
                for end in (None, {"raise": "ValueError"}):
                    yield dict(kind="contexts", platform=platform, ctx=ctx, path=X.PATHS[platform][0], items=items, end=end, vary=1, show=1)
            yield dict(kind="contexts", platform=platform, ctx=ctx, path="/dev/asiprop-missing", items=[], end=None, vary=1, show=1)
    for items in ([read({"gen": 4})] * 3, [read(BAD["windows"][0], loose=1), read({"gen": 4})], [read(BAD["windows"][1], loose=0), read({"gen": 4})], [read(LATE[0], loose=0), read({"gen": 4})]):
        yield dict(kind="reactor", platform="windows", items=items, vary=1, show=0)
    for vary in (0, 1):
        for first in ("70", "72"):
            yield dict(kind="decodes", platform="linux", items=[{"sense": first + "000500000000" + "00" * 11}], vary=vary, show=1)


def grows(run, c, plan):
    warm, rounds, stretches = plan
    o = run("retention", case=c, warm=warm, rounds=rounds, stretches=stretches)
    if "bad" in o:
        raise HarnessError(o["bad"])
    if "hang" in o:
        return None, 0, o
    w = o["ok"]["weights"]
    for what in (0, 1):
        if all(b[what] - a[what] >= rounds / 2 for a, b in zip(w, w[1:])):
            return True, o["ok"]["failed"], w
    return False, o["ok"]["failed"], w


def judge(c, run):
    for plan in ROUNDS:
        growing, failed, w = grows(run, c, plan)
        if not growing:
            break
    if growing is None:
        return ["a round that does not end"], False         # other properties' business
    expect(not growing, "%s: every %d rounds %s objects and %s elements more stay alive (%s)", c["kind"], ROUNDS[-1][1], [b[0] - a[0] for a, b in zip(w, w[1:])], [b[1] - a[1] for a, b in zip(w, w[1:])], brief(c, 900))
    return [c["kind"], c["platform"]] + ["failing"] * bool(failed), bool(failed) or len(c["items"]) > 1
