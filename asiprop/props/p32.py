from hypothesis import strategies as st
from ..core import expect, brief
from .. import execs as X

ID = "P32"
QUICK, THOROUGH = 4000, 60000
TECHNIQUE = "property-based testing of the context managers over fake handles, with generated blocks, nesting and faults"
RULE = ("A case is a sequence or nest of executer contexts of one platform over fake device handles, whose blocks run commands (succeeding or failing, handled or not, or sent and not waited for) and "
        "end normally or by any exception, or whose device cannot be opened; the log of opens, closes and requests and the propagated exception are judged. "
        "Non-trivial when a block ends by an exception.")
CTX = {"linux": ["linux_sg", "linux_dm"], "solaris": ["solaris"], "aix": ["aix"], "windows": ["windows"]}
ENDS = ["ValueError", "KeyboardInterrupt", "SystemExit", "GeneratorExit", "StopIteration", "OSError", "AsiException", "AsiSCSIError", "AsiReservationConflictError", "AsiInternalError",
        "RuntimeError", "AssertionError", "MemoryError", "MyDeviceError"]
BAD = {"linux_sg": [{"status": 8}, {"status": 2, "sense": "70000500" + "00" * 14}, {"werr": 5}], "linux_dm": [{"status": 8}, {"oserr": 5}, {"status": 2, "sense": "70000500" + "00" * 14}],
       "solaris": [{"status": 8}, {"oserr": 5}, {"reason": 2}], "aix": [{"validity": 1, "status": 8, "errno_with_status": 5}, {"oserr": 5}, {"validity": 2, "adapter": 3}],
       "windows": [{"status": 8}, {"winerr": 31}, {"status": 2, "sense": "70000500" + "00" * 14}]}


@st.composite
def block(draw, platform, ids, depth):
    ids.append(0)
    ident = len(ids)
    ctx = draw(st.sampled_from(CTX[platform]))
    path = draw(X.paths(platform))
    calls = []
    for k in range(draw(st.integers(0, 3))):
        bad = draw(st.integers(0, 3)) == 0
        comp = draw(st.sampled_from(BAD[ctx])) if bad else {"gen": ident * 10 + k + 1}
        x = draw(st.sampled_from([{"read": 16}, {"read": 0}, {"write": "0102"}]))
        calls.append(X.command(ident * 100 + k, "28" + "00" * 9, x, comp, loose=int(bad and draw(st.booleans()))))
    nested = [draw(block(platform, ids, depth + 1)) for _ in range(draw(st.integers(0, 2 if depth < 2 else 0)))]
    end = draw(st.one_of(st.none(), st.sampled_from(ENDS).map(lambda n: {"raise": n}), st.just({"raise": "AsiCheckConditionError", "sense": "70000500" + "00" * 14})))
    left = [X.command(ident * 100 + 90 + k, "28" + "00" * 9, {"read": 16}, {"gen": ident * 10 + k + 1}) for k in range(draw(st.sampled_from([0, 0, 1, 1, 3])))]
    return dict(id=ident, ctx=ctx, path=path, calls=calls, nested=nested, end=end, left=left if ctx in ("linux_sg", "windows") else left[:1])


@st.composite
def case(draw):
    platform = draw(st.sampled_from(sorted(CTX) + ["linux"]))
    ids = []
    return dict(platform=platform, blocks=[draw(block(platform, ids, 0)) for _ in range(draw(st.integers(1, 3)))])


def strategy():
    return case()


def fixed():
    for platform in sorted(CTX):
        for ctx in CTX[platform]:
            for end in [None] + ENDS:
                for calls in ([], [X.command(1, "28" + "00" * 9, {"read": 8}, {"gen": 4}, loose=0)]):
                    b = dict(id=1, ctx=ctx, path="/dev/asiprop-x", calls=calls, nested=[], end=end and {"raise": end})
                    yield dict(platform=platform, blocks=[b, dict(b, id=2, end=None)])
                    left = [X.command(90, "28" + "00" * 9, {"read": 16}, {"gen": 3})]
                    yield dict(platform=platform, blocks=[dict(b, left=left), dict(b, id=2, end=None)])
            for bad in BAD[ctx]:
                for loose in (0, 1):
                    yield dict(platform=platform, blocks=[dict(id=1, ctx=ctx, path="/dev/asiprop-x", calls=[X.command(1, "28" + "00" * 9, {"read": 8}, bad, loose=loose)], nested=[], end=None)])
            for path in X.PATHS[platform]:
                yield dict(platform=platform, blocks=[dict(id=1, ctx=ctx, path=path, calls=[X.command(1, "28" + "00" * 9, {"read": 8}, {"gen": 4}, loose=0)], nested=[], end=None)])
            yield dict(platform=platform, blocks=[dict(id=1, ctx=ctx, path="/dev/asiprop-missing", calls=[], nested=[], end=None)])


def expected_log(b, log):
    """The log this block must leave; returns how the block ends."""
    if "missing" in b["path"]:
        log += [["open failed", b["path"]], ["done", b["id"]]]
        return "failed"
    log += [["open", b["path"], 2], ["enter", b["id"]]]
    end = "normal"
    for c in b["calls"]:
        if "gen" not in c["comp"] and c["loose"]:
            end = "same exception"
            break
    else:
        for n in b["nested"]:
            expected_log(n, log)
        log.append(["leave", b["id"]])
        if b["end"]:
            end = "same exception"
    log += [["close", b["path"]], ["done", b["id"]]]
    return end


def check_block(b, out, what):
    w = "%s: block %d" % (what, b["id"])
    want = expected_log(b, [])
    expect(out["end"] == want, "%s ended by %s (%s), expected %s", w, out["end"], brief(out.get("error")), want)
    if want == "failed":
        expect(X.has(out["error"], "OSError", "AsiOSError"), "%s: opening failed with %s", w, brief(out["error"]))
        return
    done = []
    for c in b["calls"]:
        done.append(c)
        if "gen" not in c["comp"] and c["loose"]:
            break
    expect([x[0] for x in out["calls"]] == [c["id"] for c in done], "%s: commands %s", w, brief(out["calls"], 300))
    for c, (ident, outcome, paths) in zip(done, out["calls"]):
        expect(paths == [b["path"]], "%s: command %d went to %s instead of %s", w, ident, paths, b["path"])
        if "gen" in c["comp"]:
            expect(outcome.get("ok", 0) == X.plain_result(c)[0], "%s: command %s gave %s", w, brief(c), brief(outcome, 300))
        else:
            expect("error" in outcome, "%s: command %s gave %s", w, brief(c), brief(outcome, 300))
    if not any("gen" not in c["comp"] and c["loose"] for c in b["calls"]):
        for n, o in zip(b["nested"], out.get("nested", [])):
            check_block(n, o, what)


def judge(c, run):
    obs = run("contexts", platform=c["platform"], blocks=c["blocks"])
    what = "%s contexts %s" % (c["platform"], brief(c["blocks"], 800))
    log = []
    for b in c["blocks"]:
        expected_log(b, log)
    expect(obs["log"] == log, "%s: log %s, expected %s", what, brief(obs["log"], 500), brief(log, 500))
    expect(obs["open"] == 0, "%s: %d handles left open", what, obs["open"])
    for b, o in zip(c["blocks"], obs["blocks"]):
        check_block(b, o, what)
    return [c["platform"]], any(o["end"] != "normal" for o in obs["blocks"])
