from hypothesis import strategies as st
from .. import queue_model as Q

ID = "P25"
QUICK, THOROUGH = 5000, 120000
TECHNIQUE = "model-based (stateful) property testing of the executer against a reference queue model, with injected transmission faults"
RULE = ("A case is a history of sends, calls and waits around a small queue limit with transmission failures (operating system errors, arbitrary exceptions) injected at "
        "generated requests and commands of which no request can be made; the limit, the full indication, what the device saw and every outcome must be what the queue model gives. "
        "Non-trivial when a send was refused or failed.")


def strategy():
    return st.one_of(Q.history(st.sampled_from([1, 1, 2, 2, 3, 4]), True), Q.history(st.sampled_from([None, 5, 15, 16]), True, max_steps=40, orders=False))


def fixed():
    cdb = "28" + "00" * 9
    for q in (None, 1, 2, 3, 7, 15, 64, 300):
        n = (q or 15) + 2
        for fail in (None, 0, 1, n // 2, n - 1):
            for adapter in (False, True):
                steps = []
                for i in range(n):
                    comp = {"gen": i + 1}
                    if i == fail:
                        comp["werr"] = 5
                    steps.append({"do": "send", "cmd": dict(id=i, cdb=cdb, read=4, comp=comp, cb="record")})
                steps += [{"do": "call", "cmd": dict(id=n, cdb=cdb, read=4, comp={"gen": 99})}, {"do": "wait"}]
                steps += [{"do": "send", "cmd": dict(id=n + 1 + i, cdb=cdb, read=4, comp={"gen": n + 2 + i}, cb="record")} for i in range(n)] + [{"do": "wait"}]
                yield dict(steps=steps, order=[3, 1, 2], q=q, adapter=adapter)
    # many failed transmissions in a row never use up the queue
    for q in (1, 2, 5):
        steps = [{"do": "send", "cmd": dict(id=i, cdb=cdb, read=4, comp={"gen": 1, "werr": 5}, cb="record")} for i in range(3 * q + 2)]
        steps += [{"do": "send", "cmd": dict(id=100 + i, cdb=cdb, read=4, comp={"gen": 5 + i}, cb="record")} for i in range(q)] + [{"do": "wait"}]
        yield dict(steps=steps, order=[], q=q, adapter=False)
        for bad in ("cdb", "read", "write"):
            yield dict(steps=[{"do": s["do"], "cmd": {k: v for k, v in dict(s["cmd"], bad=bad, comp={"gen": 1}).items() if k != "werr"}} if s["do"] == "send" and "werr" in s["cmd"]["comp"] else s
                              for s in steps], order=[], q=q, adapter=False)


def judge(c, run):
    m = Q.judge(c, run)
    refused = any(e[0] in ("step", "nested") and e[-3 if e[0] == "step" else 2] == ("error", ["AsiRequestQueueFullError"]) for e in m.events)
    failed = any(("werr" in x["comp"] or "wraise" in x["comp"] or x.get("bad")) for x in Q.all_cmds(c).values())
    return ["queue:%s" % c["q"]] + (["refused"] if refused else []) + (["send failure"] if failed else []), refused or failed
