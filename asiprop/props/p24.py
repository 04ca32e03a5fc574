from hypothesis import strategies as st
from .. import queue_model as Q

ID = "P24"
QUICK, THOROUGH = 5000, 120000
TECHNIQUE = "model-based (stateful) property testing of the executer against a reference queue model over a fake SG device"
RULE = ("A case is a history of sends (with callbacks that record, are absent, raise, or send again), blocking calls and waits, with an order in which the fake device "
        "completes outstanding requests, unknown tags and read errors included; every callback, result and request must be the one the queue model gives. "
        "Non-trivial when two or more requests were outstanding together.")
NOTE = "Responses with an unknown tag carry a good status (the kernel's sense pointer of an unknown request is not a readable address)."


def strategy():
    return Q.history(st.sampled_from([None, None, 2, 3, 4, 7, 40, 300]), False)


def fixed():
    cdb = "28" + "00" * 9
    # every completion order of up to five outstanding requests
    import itertools
    for n in range(1, 6):
        for perm in itertools.product(*[range(n - i) for i in range(n)]):
            steps = [{"do": "send", "cmd": dict(id=i + 1, cdb=cdb, read=4 + i, comp={"gen": i + 1} if i % 3 != 2 else {"status": 8}, cb="record")} for i in range(n)]
            yield dict(steps=steps + [{"do": "wait"}], order=list(perm), q=None, adapter=False)
            call = [{"do": "call", "cmd": dict(id=n + 1, cdb=cdb, read=9, comp={"gen": 50})}]
            if n < 5:
                yield dict(steps=steps + call + [{"do": "wait"}], order=[n] + list(perm), q=None, adapter=True)
                yield dict(steps=steps + call + [{"do": "wait"}], order=list(perm), q=None, adapter=True)
    # long queues, completed first to last, last to first, or with the blocking call's response first
    for q in (16, 17, 40, 100, 255, 256, 257, 300):
        for order in ([0] * q, [n - 1 for n in range(q, 0, -1)], [q - 1] + [0] * (q - 1), [(7 * n) % n if n % 3 else n // 2 for n in range(q, 0, -1)]):
            steps = [{"do": "send", "cmd": dict(id=i + 1, cdb=cdb, read=4, comp={"gen": i % 90 + 1} if i % 5 else {"status": 8}, cb="record")} for i in range(q - 1)]
            steps += [{"do": "call", "cmd": dict(id=q, cdb=cdb, read=9, comp={"gen": 91})}, {"do": "send", "cmd": dict(id=q + 1, cdb=cdb, read=4, comp={"gen": 92}, cb="record")}]
            yield dict(steps=steps + [{"do": "wait"}], order=order, q=q, adapter=q == 40)
    # tags wrap around while one request stays outstanding
    for q in (2, 3, 5, 15):
        steps = [{"do": "send", "cmd": dict(id=1000, cdb=cdb, read=8, comp={"gen": 77}, cb="record")}]
        steps += [{"do": "call", "cmd": dict(id=i, cdb=cdb, read=8, comp={"gen": i + 1})} for i in range(3 * q)]
        yield dict(steps=steps + [{"do": "wait"}], order=[1] * (3 * q), q=q, adapter=False)


def judge(c, run):
    m = Q.judge(c, run)
    return ["peak:%d" % min(m.peak, 6)] + (["reordered"] if m.reordered else []) + (["faults"] if m.oddities else []), m.peak > 1
