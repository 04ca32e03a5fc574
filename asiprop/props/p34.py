import os
from hypothesis import strategies as st
from ..core import expect, brief
from .. import execs as X
from . import p26, p27, p28, p29

ID = "P34"
QUICK, THOROUGH = 4000, 80000
TECHNIQUE = "property-based testing with a recording stand-in for gevent: generated histories on every platform's executer, generated functions and outcomes for the wrapper"
RULE = ("A case is a history of commands on one platform's executer (with failures), whose log must show a yield after every completed blocking device operation and before "
        "the next one, or a few calls of one wrapped function with generated arguments and outcomes, which must be transparent. Non-trivial when two or more operations complete, "
        "or the wrapped function has arguments or is called again.")
WORKER_ENV = {"PYTHONPATH": os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "worker", "stubs")}
ASSUMPTIONS = ["gevent is replaced by a module whose sleep() records the call; overlapped Windows I/O does not block and is not covered."]
COMPS = {"linux_sg": [{"status": 8}, {"werr": 5}, {"status": 2, "sense": "70"}], "linux_ioctl": [{"status": 8}, {"oserr": 5}], "solaris": [{"status": 8}, {"oserr": 5}],
         "aix": [{"validity": 1, "status": 8, "errno_with_status": 5}, {"oserr": 5}], "aix_libc": [{"validity": 1, "status": 2, "errno_with_status": 5}, {"oserr": 5}],
         "windows": [{"status": 8}, {"winerr": 5}]}


@st.composite
def history(draw):
    platform = draw(st.sampled_from(sorted(COMPS)))
    steps = []
    for i in range(draw(st.integers(1, 6))):
        comp = draw(st.one_of(st.just({"gen": i + 1}), st.just({"gen": i + 1}), st.sampled_from(COMPS[platform])))
        cmd = X.command(i, draw(X.cdbs(16)), draw(X.transfer(3000)), comp)
        steps.append({"do": draw(st.sampled_from(["call", "send", "send"])), "cmd": cmd})
        if draw(st.integers(0, 2)) == 0:
            steps.append({"do": "wait"})
    return dict(platform=platform, steps=steps + [{"do": "wait"}], adapter=draw(st.booleans()), order=draw(st.lists(st.integers(0, 5), max_size=6)), q=draw(st.sampled_from([None, 2, 3, 6])))


def strategy():
    value = st.one_of(st.just("$u"), st.none(), st.integers(-5, 5), st.text(max_size=4), st.lists(st.integers(0, 3), max_size=3))
    names = st.sampled_from(["a", "b", "timeout", "func", "seconds", "args", "kwargs", "self", "fn"])
    outcome = st.one_of(value, value, st.sampled_from(["ValueError", "OSError", "KeyboardInterrupt", "SystemExit", "GeneratorExit", "StopIteration", "AsiSCSIError", "MyDeviceError"]).map(lambda n: {"raise": n}))
    one = st.fixed_dictionaries(dict(args=st.lists(value, max_size=5), kwargs=st.dictionaries(names, value, max_size=3), outcome=outcome))
    wrap = st.fixed_dictionaries(dict(wrapped=st.lists(one, min_size=1, max_size=5)))
    return st.one_of(history(), history(), wrap)


def fixed():
    for platform in sorted(COMPS):
        for q in (2, 4, None):
            sends = [{"do": "send", "cmd": X.command(i, "12" + "00" * 5, [{"read": 8}, {"write": [i, 6]}, {"read": 0}][i % 3], {"gen": i + 1})} for i in range(4)]
            yield dict(platform=platform, steps=sends + [{"do": "call", "cmd": X.command(9, "12" + "00" * 5, {"read": 8}, {"gen": 9})}, {"do": "wait"}, {"do": "wait"}], adapter=False, order=[], q=q)
        for comp in [{"gen": 1}] + COMPS[platform]:
            yield dict(platform=platform, steps=[{"do": "call", "cmd": X.command(i, "12" + "00" * 5, {"read": 8}, comp if i == 0 else {"gen": 9})} for i in range(3)], adapter=False, order=[])


def judge(c, run):
    if "wrapped" in c:
        for n, (call, obs) in enumerate(zip(c["wrapped"], run("wrapped", calls=c["wrapped"]))):
            what = "call %d of one wrapped function with %s %s, outcome %s" % (n + 1, brief(call["args"], 200), brief(call["kwargs"], 200), brief(call["outcome"], 100))
            expect(obs["calls"] == 1 and obs["same"], "%s: the function saw %s", what, brief(obs))
            if isinstance(call["outcome"], dict):
                expect(obs.get("raised") == 1, "%s: its exception did not reach the caller: %s", what, brief(obs))
            else:
                expect(obs.get("returned") == 1, "%s: its result did not reach the caller: %s", what, brief(obs))
                expect("yield" in obs["log"][obs["log"].index("call"):], "%s: no yield afterwards: %s", what, obs["log"])
        return ["wrapper"], len(c["wrapped"]) > 1 or any(call["args"] or call["kwargs"] for call in c["wrapped"])
    obs = run("history", platform=c["platform"], steps=c["steps"], order=c["order"], opts=dict(adapter=c["adapter"], max_queue_size=c.get("q")))
    what = "%s history %s: log %s" % (c["platform"], brief(c["steps"], 500), brief(obs["io"], 500))
    owed, done = None, 0
    for e in obs["io"]:
        if e == "yield":
            owed = None
        elif e == "raised":
            owed, done = None, done - 1
        else:
            expect(e != "sleep", "%s: a real delay", what)
            expect(owed is None, "%s: no yield between %s and the next %s", what, owed, e)
            owed, done = e, done + 1
    expect(owed is None, "%s: no yield after the last %s", what, owed)
    expect(done or "gen" not in c["steps"][0]["cmd"]["comp"], "%s: no device operation", what)
    return [c["platform"]], done > 1
