from hypothesis import strategies as st
from ..core import expect, brief
from .. import execs as X
from .p29 import WINERRS, result

ID = "P30"
QUICK, THOROUGH = 4000, 80000
TECHNIQUE = "property-based testing of the reactor over fake overlapped I/O with generated completion schedules"
RULE = ("A case is a set of command coroutines (each a generated number of I/O steps at a generated nesting depth, each step completing immediately, later, or with an "
        "error that the coroutine handles or not) and the order and bursts in which the fake system completes pending I/O; the reactor must return each command's own "
        "results in the order given, or raise an unhandled error of one of them. Non-trivial when two or more commands were pending together.")
MODELS = {"cc": {"status": 2, "sense": "70000500000000" + "0a" + "00" * 4 + "2400" + "00" * 4}, "err": {"status": 8}, "os": {"winerr": 31}, "late": {"winerr": 1117, "late": 1}}
CLASS = {"cc": "AsiCheckConditionError", "err": "AsiSCSIError", "os": "AsiOSError", "late": "AsiOSError"}


def fault_of(comp):
    for k, v in MODELS.items():
        if all(comp.get(a) == b for a, b in v.items()) and ("late" in v) == ("late" in comp):
            return k
    return None


@st.composite
def case(draw):
    n = draw(st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(7, 70)))
    commands, ident = [], 0
    faults = draw(st.sampled_from([0, 0, 1, 4]))
    for i in range(n):
        steps = []
        for _ in range(draw(st.integers(0, 4 if n < 7 else 2))):
            ident += 1
            comp = {"gen": ident}
            if faults and draw(st.integers(0, 5)) < faults:
                comp = dict(MODELS[draw(st.sampled_from(sorted(MODELS)))])
            if draw(st.integers(0, 4)) == 0 and "late" not in comp:
                comp["immediate"] = 1
            x = {"read": draw(st.integers(1, 20))} if draw(st.booleans()) else {"write": [ident, draw(st.integers(0, 9))]}
            steps.append(X.command(ident, "28" + "00" * 9, x, comp))
        commands.append(dict(steps=steps, depth=draw(st.integers(0, 3)), catch=draw(st.integers(0, 3)) > 0))
    order = draw(st.lists(st.one_of(st.integers(0, 70), st.tuples(st.integers(0, 70), st.integers(1, 5)).map(list)), max_size=30))
    return dict(commands=commands, order=order, shared=draw(st.booleans()))


def strategy():
    return case()


def fixed():
    import itertools
    for shared in (False, True):
        for n in range(1, 5):
            for perm in itertools.product(*[range(n - i) for i in range(n)]):
                cmds = [dict(steps=[X.command(10 * i + k, "28" + "00" * 9, {"read": 3 + i}, {"gen": 10 * i + k + 1}) for k in range(1 + i % 3)], depth=i % 2, catch=True) for i in range(n)]
                yield dict(commands=cmds, order=list(perm), shared=shared)
        for n in (1, 16, 63, 64, 65, 100):
            cmds = [dict(steps=[X.command(i, "28" + "00" * 9, {"read": 4}, {"gen": i + 1})], depth=0, catch=True) for i in range(n)]
            yield dict(commands=cmds, order=[7, 3, [1, 4], 60], shared=shared)


def judge(c, run):
    obs = run("reactor", commands=c["commands"], order=c["order"], shared=c["shared"])
    what = "commands %s, completions %s" % (brief(c["commands"], 900), brief(c["order"], 200))
    want, uncaught = [], set()
    for i, cmd in enumerate(c["commands"]):
        out = []
        for s in cmd["steps"]:
            f = fault_of(s["comp"])
            if f is None:
                out.append(result(s))
            elif cmd["catch"]:
                out.append([CLASS[f]])
            else:
                uncaught.add((i, CLASS[f]))
                break
        want.append(out)
    starts = [t[1] for t in obs["trace"] if t[0] == "start"]
    expect(len(starts) == len(set(starts)), "%s: started %s", what, starts)
    if uncaught:
        expect("error" in obs, "%s: returned although commands %s fail: %s", what, sorted(uncaught), brief(obs.get("ok"), 300))
        expect(any(X.has(obs["error"], name) for _, name in uncaught), "%s: raised %s, expected an error of %s", what, brief(obs["error"]), sorted(uncaught))
        failed = [t[1] for t in obs["trace"] if t[0] == "fail"]
        expect(failed and all(any(i == f for i, _ in uncaught) for f in failed), "%s: failed commands %s, expected %s", what, failed, sorted(uncaught))
    else:
        expect("ok" in obs, "%s: raised %s", what, brief(obs.get("error")))
        expect(sorted(starts) == list(range(len(c["commands"]))), "%s: started %s", what, starts)
        expect(len(obs["ok"]) == len(want), "%s: %d results for %d commands", what, len(obs["ok"]), len(want))
        for i, (a, b) in enumerate(zip(want, obs["ok"])):
            expect(isinstance(b, list) and len(a) == len(b), "%s: command %d returned %s", what, i, brief(b, 300))
            for k, (x, y) in enumerate(zip(a, b)):
                good = ("caught" in y and x[0] in y["caught"]) if isinstance(y, dict) and "caught" in y else y in x
                expect(good, "%s: step %d of command %d gave %s, expected %s", what, k, i, brief(y, 300), brief(x[0], 300))
        sent = sorted(obs["requests"])
        expect(sent == sorted(s["id"] for cmd in c["commands"] for s in cmd["steps"]), "%s: requests %s", what, brief(sent))
    return ["commands:%d" % min(len(c["commands"]), 7)] + (["unhandled"] if uncaught else []) + (["shared"] if c["shared"] else []), obs["peak"] > 1
