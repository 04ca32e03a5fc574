from hypothesis import strategies as st
from ..core import expect, brief
from ..gen import u8, u32
from ..replies import R, hexed, page_bytes
from .. import execs as X, ses
from .p15 import conf_of
from .p32 import BAD, CTX
from .p34 import WORKER_ENV     # a gevent that only says when it was given a chance to run

ID = "P41"
QUICK, THOROUGH = 500, 30000
TECHNIQUE = "schedule exploration by property-based testing: generated programs in several threads under generated deterministic schedules, against each program alone (metamorphic)"
RULE = ("A case is two or three threads of one platform, each opening executer contexts on devices of its own and running commands of every kind through them (failing ones included), and a schedule: which "
        "thread goes on, and for how many steps, where a step is a line of infi.asi, a request being with the kernel or a yield to other greenlets. Every thread's results, requests, opens and closes "
        "must be those of its program alone in a process of its own. Non-trivial when a running thread is interrupted by another at least twice.")
NOTE = "Preemption is at line granularity inside infi.asi; code of other packages runs without interruption. The oracle is the code itself without the other threads."
NAMES = sorted(R)


@st.composite
def item(draw, ctx):
    k = draw(st.integers(0, 10))
    failing = draw(st.integers(0, 3)) == 0
    if failing:
        comp = draw(st.one_of(st.sampled_from(BAD[ctx]), X.sense_bytes.map(lambda s: {"status": 2, "sense": s})))
        if ctx == "aix" and "sense" in comp:
            comp = dict(comp, validity=1, errno_with_status=5)
    if k < 3:
        return X.command(0, draw(X.cdbs()), draw(X.transfer(300)), comp if failing else draw(X.replies()), loose=int(failing and draw(st.booleans())))
    if k < 8:
        name = draw(st.sampled_from(NAMES))
        f = draw(R[name].strategy)
        return dict(obj=R[name].cmd(f), comp=comp if failing else {"data": R[name].build(f).hex()}, loose=int(failing and draw(st.booleans())))
    conf = draw(st.lists(st.tuples(ses.etype, st.integers(0, 3)), min_size=1, max_size=3).map(conf_of))
    f = dict(conf=conf, b1=draw(u8), gen=draw(u32), rsvd=0, status=draw(hexed(page_bytes(4, 24))), texts=draw(st.lists(hexed(page_bytes(0, 8)), min_size=1, max_size=3)))
    code = draw(st.sampled_from([2, 7]))
    return dict(conf=ses.conf_build(conf).hex(), code=code, data=(ses.status_build if code == 2 else ses.descriptor_build)(f).hex())


@st.composite
def program(draw, platform):
    out = []
    for _ in range(draw(st.integers(1, 2))):
        ctx = draw(st.sampled_from(CTX[platform]))
        out.append(dict(ctx=ctx, path=draw(X.paths(platform)), items=draw(st.lists(item(ctx), min_size=1, max_size=3))))
    return out


@st.composite
def case(draw):
    platform = draw(st.sampled_from(sorted(CTX) + ["linux"]))
    programs = draw(st.lists(program(platform), min_size=2, max_size=3))
    if draw(st.booleans()):
        programs.append(programs[0])           # the same work twice at once
    length = st.one_of(st.integers(1, 4), st.integers(1, 40), st.integers(1, 400))
    plan = draw(st.lists(st.tuples(st.integers(0, 3), length).map(list), max_size=14))
    return dict(platform=platform, programs=programs, plan=plan, every=draw(st.sampled_from([0, 1, 1, 2, 3, 7, 31])))


def strategy():
    return case()


def fixed():
    for c in more_fixed():
        yield c
    good = lambda g, n=16: X.command(0, "%02x" % g * 10, {"read": n}, {"gen": g}, loose=0)
    out = lambda g: X.command(0, "%02x" % g * 10, {"write": [g, 24]}, {}, loose=0)
    for platform in sorted(CTX):
        for a in CTX[platform]:
            for b in CTX[platform]:
                bad = [dict(X.command(0, "28" + "00" * 9, {"read": 8}, x, loose=0)) for x in BAD[b]]
                for every in (1, 2, 5):
                    yield dict(platform=platform, plan=[], every=every, programs=[[dict(ctx=a, path=X.PATHS[platform][0], items=[good(1), good(2, 40), out(3)])],
                                                                                   [dict(ctx=b, path=X.PATHS[platform][1], items=[out(4), good(5), good(6, 9)])]])
                    yield dict(platform=platform, plan=[[0, 30]], every=every, programs=[[dict(ctx=a, path=X.PATHS[platform][0], items=[good(1), good(2), out(3)])], [dict(ctx=b, path=X.PATHS[platform][1], items=bad)]])


def enclosure(types, fill):
    f = dict(conf=conf_of(types), b1=0, gen=1, rsvd=0, status=(bytes([fill]) * 4).hex(), texts=[(b"%c" % fill).hex() * 3])
    return [dict(conf=ses.conf_build(f["conf"]).hex(), code=code, data=build(f).hex()) for code, build in ((2, ses.status_build), (7, ses.descriptor_build))]


def more_fixed():
    rows = [enclosure([(4, 3), (23, 2)], 1), enclosure([(23, 1), (2, 4), (3, 1)], 2), enclosure([(18, 1)], 3)]
    for every in (1, 2, 3, 5, 11):
        for plan in ([], [[0, 7]], [[1, 150], [0, 30]]):
            for a, b in ((0, 1), (1, 2), (2, 0)):
                yield dict(platform="linux", plan=plan, every=every, programs=[[dict(ctx="linux_sg", path=X.PATHS["linux"][i], items=rows[i])] for i in (a, b)])


def judge(c, run):
    from ..core import HarnessError
    obs = run("threads", platform=c["platform"], programs=c["programs"], plan=c["plan"], every=c["every"])
    text = "%s threads %s under %s/%s" % (c["platform"], brief(c["programs"], 900), brief(c["plan"]), c["every"])
    for o in [obs["all"]] + obs["alone"]:
        if "bad" in o:
            raise HarnessError(o["bad"])
    for o in obs["alone"]:
        if "hang" in o or "stuck" in o["ok"]:
            return ["a program that does not end"], False       # other properties' business
    expect("hang" not in obs["all"] and "stuck" not in obs["all"]["ok"], "%s: did not terminate", text)
    whole = obs["all"]["ok"]
    for k, first, now in whole["changed"]:
        expect(False, "what thread %d got changed afterwards from %s to %s (%s)", k, brief(first, 300), brief(now, 300), text)
    for k, alone in enumerate(obs["alone"]):
        for what in ("results", "requests", "logs"):
            a, b = whole[what][k], alone["ok"][what][0]
            for i, (x, y) in enumerate(zip(a, b)):
                expect(x == y, "%s %d of thread %d: %s; without the other threads %s (%s)", what, i, k, brief(x, 600), brief(y, 600), text)
            expect(len(a) == len(b), "%d %s of thread %d, without the others %d (%s)", len(a), what, k, len(b), text)
    expect(whole["open"] == 0, "%s: %d handles left open", text, whole["open"])
    return [c["platform"]], whole["switches"] >= 2 and not whole["free"]
