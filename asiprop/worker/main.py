"""The worker: runs under the PyPy interpreter the repository is built for, imports infi.asi from
the working tree in $ASIPROP_REPO (default /repo) and executes one JSON case per line.

It contains no oracle: it only builds objects, drives them and reports what was observed.
"""
from __future__ import print_function
import sys, os, json, signal, traceback

REPO = os.environ.get("ASIPROP_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

# keep our protocol stream private: anything the code under test prints goes to stderr
_out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)

import logging
logging.disable(logging.CRITICAL)


class CpuLimit(BaseException):
    """Raised inside the code under test when one case burns an absurd amount of CPU time."""


def _on_vtalrm(signum, frame):
    raise CpuLimit("case exceeded its CPU budget")


signal.signal(signal.SIGVTALRM, _on_vtalrm)
CPU_BUDGET = float(os.environ.get("ASIPROP_CPU_BUDGET", "20"))


def _limit_memory():
    import resource
    limit = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))


def main():
    _limit_memory()
    import syscalls  # before anything imports infi.asi
    import ops      # registers every operation
    for line in iter(sys.stdin.readline, ""):
        req = json.loads(line)
        handler = ops.OPS[req["op"]]
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_BUDGET)
        try:
            try:
                reply = {"ok": handler(**req["args"])}
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except CpuLimit:
            reply = {"hang": "cpu"}
        except ops.Skip as e:
            reply = {"skip": str(e)}
        except BaseException as e:                      # a fault of the harness: never a verdict
            reply = {"harness_error": "".join(traceback.format_exception(type(e), e, e.__traceback__))}
        _out.write(json.dumps(reply) + "\n")
        _out.flush()


if __name__ == "__main__":
    main()
