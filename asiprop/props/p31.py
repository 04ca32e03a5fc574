from hypothesis import strategies as st
from ..core import expect, brief

ID = "P31"
QUICK, THOROUGH = 4000, 100000
TECHNIQUE = "property-based testing: random coroutine programs against a plain nested-call interpreter"
RULE = ("A case is a generated tree of coroutines (yields, awaited sub-coroutines, I/O tokens, raises, try/except/else/finally, loops, deep "
        "chains) run through sync_wait or sync_call; the oracle runs the same program as ordinary nested function calls and compares the "
        "whole event log and the outcome. Non-trivial when at least two coroutines run and an exception is raised or a token awaited.")
NOTE = ("Random search over generated coroutine trees; the oracle is an independent direct-call interpreter. A coroutine that ends without "
        "yielding a result is only required not to leak a generator or exception as its result.")

EXC_NAMES = ["ValueError", "KeyError", "RuntimeError", "GenError", "SubGenError", "KeyboardInterrupt", "OSError", "SystemExit", "AssertionError",
             "AttributeError"]
CATCH = EXC_NAMES + ["Exception", "BaseException", "LookupError"]
VALUES = st.one_of(st.integers(-5, 300), st.none(), st.just(""), st.text(alphabet="abc", max_size=3), st.just({"last": 1}),
                   st.builds(lambda a: {"tuple": a}, st.lists(st.integers(0, 9), max_size=2)), st.just({"bytes": ""}), st.just({"bytes": "00ff"}),
                   st.builds(lambda k, n: {"object": k, "n": n}, st.sampled_from(["list", "list_iterator", "map", "range", "dict", "sendable", "closable", "function", "generator_function", "awaitable", "token_class"]), st.integers(0, 3)),
                   st.builds(lambda n, m: {"exc": n, "msg": m}, st.sampled_from(["ValueError", "GenError", "KeyboardInterrupt"]), st.sampled_from("xyz")))


@st.composite
def stmts(draw, depth, budget, risky=False):
    out = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 4] if depth > 1 else [0, 1, 2]))):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        kinds = ["log", "yield", "yield", "token"]
        if depth > 0:
            kinds += ["call", "call", "call", "try", "try", "repeat"]
        kinds += ["raise"] * (3 if risky else 1) if risky or draw(st.integers(0, 3)) == 0 else []
        k = draw(st.sampled_from(kinds))
        if k == "log":
            out.append(["log", draw(st.integers(0, 99))])
        elif k == "yield":
            out.append(["yield", draw(VALUES)])
        elif k == "token":
            if draw(st.integers(0, 2)) == 0:
                out.append(["token", {"raise": draw(st.sampled_from(EXC_NAMES)), "msg": draw(st.sampled_from("tuv"))}])
            else:
                out.append(["token", {"value": draw(VALUES.filter(lambda v: v != {"last": 1}))}])
        elif k == "call":
            out.append(["call", draw(node(depth - 1, budget, risky))])
        elif k == "raise":
            out.append(["raise", draw(st.sampled_from(EXC_NAMES)), draw(st.sampled_from("abc"))])
        elif k == "repeat":
            out.append(["repeat", draw(st.integers(0, 3)), draw(stmts(depth - 1, budget))])
        elif k == "try":
            body = draw(stmts(depth - 1, budget, True))
            handlers = [[draw(st.one_of(st.lists(st.sampled_from(CATCH), min_size=1, max_size=2), st.sampled_from([["Exception"], ["BaseException"]]))), draw(stmts(depth - 2 if depth > 1 else 0, budget))]
                        for _ in range(draw(st.integers(0, 2)))]
            orelse = draw(stmts(0, budget)) if draw(st.integers(0, 2)) == 0 else []
            final = draw(stmts(depth - 2 if depth > 1 else 0, budget)) if draw(st.booleans()) or not handlers else None
            out.append(["try", body, handlers, orelse, final])
    return out


@st.composite
def node(draw, depth, budget, risky=False, result=False):
    if depth > 1 and draw(st.integers(0, 14)) == 0:
        return {"chain": draw(st.sampled_from([1, 2, 5, 30, 400])), "leaf": draw(node(depth - 1, budget, risky, True))}
    budget[1] += 1
    n = {"id": budget[1], "body": draw(stmts(depth, budget, risky))}
    if result or draw(st.integers(0, 3)):
        n["result"] = draw(VALUES)
    return n


@st.composite
def case(draw):
    budget = [draw(st.sampled_from([6, 14, 25, 40])), 0]
    return {"program": draw(node(draw(st.sampled_from([2, 3, 4, 5])), budget)), "how": draw(st.sampled_from(["sync_wait", "sync_wait", "sync_call"]))}


def strategy():
    return case()


def fixed():
    def n(i, *body, **kw):
        d = {"id": i, "body": list(body)}
        d.update(kw)
        return d
    boom = n(9, ["raise", "ValueError", "a"], result=1)
    swallow = n(2, ["try", [["call", boom]], [[["ValueError"], []]], [], None])
    for how in ("sync_wait", "sync_call"):
        yield {"program": n(1, ["call", swallow], ["yield", 5], result=6), "how": how}
        yield {"program": swallow, "how": how}
        yield {"program": n(1, ["call", n(2, ["yield", {"exc": "ValueError", "msg": "x"}], result={"last": 1})], result={"last": 1}), "how": how}
        yield {"program": n(1, ["call", n(2)]), "how": how}
        yield {"program": n(1, ["try", [["token", {"raise": "OSError", "msg": "t"}]], [[["OSError"], [["yield", 3]]]], [], [["log", 1]]], result=8), "how": how}
        yield {"program": {"chain": 5000, "leaf": n(2, ["yield", 1], result=7)}, "how": how}
        yield {"program": {"chain": 800, "leaf": boom}, "how": how}
        for deep in (30, 400, 1200):        # handled, and finally blocks run, by the outermost one
            yield {"program": n(1, ["try", [["call", {"chain": deep, "leaf": boom}]], [[["ValueError"], [["yield", 3]]]], [], [["log", 1]]], result=8), "how": how}
            yield {"program": n(1, ["try", [["call", {"chain": deep, "leaf": n(3, ["token", {"raise": "OSError", "msg": "t"}], result=2)}]], [[["OSError"], [["yield", 4]]]], [], [["log", 2]]], ["yield", 5], result=8), "how": how}
        yield {"program": n(1, ["repeat", 5000, [["yield", 1]]], result=2), "how": how}


# ------------------------------------------------------------------ the oracle: ordinary nested calls

class GenError(Exception):
    pass


class SubGenError(GenError):
    pass


EXC = dict(ValueError=ValueError, KeyError=KeyError, LookupError=LookupError, RuntimeError=RuntimeError, GenError=GenError, SubGenError=SubGenError,
           KeyboardInterrupt=KeyboardInterrupt, OSError=OSError, Exception=Exception, BaseException=BaseException, SystemExit=SystemExit,
           AssertionError=AssertionError, AttributeError=AttributeError, GeneratorExit=GeneratorExit)


def value_of(spec, env):
    if isinstance(spec, dict):
        if "exc" in spec:
            return EXC[spec["exc"]](spec["msg"])
        if "last" in spec:
            return env["last"]
        if "tuple" in spec:
            return tuple(spec["tuple"])
        if "bytes" in spec:
            return bytes.fromhex(spec["bytes"])
        if "object" in spec:
            return Opaque(spec)
    return spec


class Opaque(object):
    """A value that is not a coroutine although it can be iterated, called or sent to."""
    def __init__(self, spec):
        self.spec = spec


def show(v):
    if isinstance(v, Opaque):
        return v.spec
    if isinstance(v, BaseException):
        return "exc:%s:%s" % (type(v).__name__, ",".join(str(a) for a in v.args))
    if isinstance(v, tuple):
        return {"tuple": list(v)}
    if isinstance(v, bytes):
        return {"bytes": v.hex()}
    return v


def call(node, log):
    while "chain" in node:
        node = node["leaf"]
    env = {"last": None}
    log.append(["start", node["id"]])
    block(node["body"], env, log)
    log.append(["end", node["id"]])
    return value_of(node["result"], env) if "result" in node else None


def void(node):
    while "chain" in node:
        node = node["leaf"]
    return "result" not in node


def block(stmts, env, log):
    for s in stmts:
        k = s[0]
        if k == "log":
            log.append(["log", s[1]])
        elif k == "yield":
            env["last"] = value_of(s[1], env)
            log.append(["got", show(env["last"])])
        elif k == "call":
            r = call(s[1], log)
            if "result" in s[1] or "chain" in s[1]:
                env["last"] = r
                log.append(["ret", show(r)])
            else:
                log.append(["ret-void"])
        elif k == "token":
            log.append(["token", 1])
            if "raise" in s[1]:
                raise EXC[s[1]["raise"]](s[1]["msg"])
            env["last"] = value_of(s[1]["value"], {})
            log.append(["io", show(env["last"])])
        elif k == "raise":
            raise EXC[s[1]](s[2])
        elif k == "repeat":
            for _ in range(s[1]):
                block(s[2], env, log)
        elif k == "try":
            _, body, handlers, orelse, final = s
            try:
                try:
                    block(body, env, log)
                except BaseException as e:
                    for names, hbody in handlers:
                        if any(isinstance(e, EXC[n]) for n in names):
                            log.append(["caught", show(e)])
                            block(hbody, env, log)
                            break
                    else:
                        raise
                else:
                    block(orelse, env, log)
            finally:
                if final is not None:
                    log.append(["finally"])
                    block(final, env, log)


def has_void_chain(x):
    """A chain over a coroutine without a result hands an unspecified value up; such programs are not generated deliberately."""
    if isinstance(x, dict):
        if "chain" in x and void(x):
            return True
        return any(has_void_chain(v) for v in x.values())
    if isinstance(x, list):
        return any(has_void_chain(v) for v in x)
    return False


def judge(c, run):
    program = c["program"]
    if has_void_chain(program):
        return ["void-chain"], False
    log = []
    want = {}
    try:
        want["result"] = show(call(program, log))
    except BaseException as e:
        want["raised"] = show(e)
    obs = run("coroutine", program=program, how=c["how"])
    what = "%s of %s" % (c["how"], brief(program, 700))
    for i, (a, b) in enumerate(zip(log, obs["log"])):
        expect(a == b, "%s: event %d is %s, nested calls give %s (after %s)", what, i, b, a, log[max(0, i - 4):i])
    expect(len(log) == len(obs["log"]), "%s: %d events, nested calls give %d: %s vs %s", what, len(obs["log"]), len(log), brief(obs["log"][-4:]), brief(log[-4:]))
    expect(obs.get("raised") == want.get("raised"), "%s: raised %s, expected %s", what, obs.get("raised"), want.get("raised"))
    if "result" in want:
        if void(program):
            r = obs["result"]
            expect(not (isinstance(r, str) and (r == "generator!" or r.startswith("object:"))), "%s: a coroutine without result returned %s", what, r)
        else:
            expect(obs["result"] == want["result"], "%s: result %s, expected %s", what, obs["result"], want["result"])
    if c["how"] == "sync_call" and "calls" in obs:
        expect(obs["calls"] == 1, "%s: the coroutine function was called %d times", what, obs["calls"])
        expect(obs["entry_args"] == [[1, 2], [["key", "v"]]], "%s: arguments %s", what, obs["entry_args"])
    starts = sum(1 for e in log if e[0] == "start")
    exc = any(e[0] in ("caught", "token") for e in log) or "raised" in want
    return [c["how"], "raised" if "raised" in want else "returned"] + (["handled"] if any(e[0] == "caught" for e in log) else []), starts > 1 and exc
