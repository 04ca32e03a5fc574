"""Driver side (CPython + Hypothesis): worker client, case runner, shrinking, evidence, replay."""
import os, sys, json, subprocess, select, time, hashlib, ast, glob, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("ASIPROP_REPO", "/repo")
PYPY = os.environ.get("ASIPROP_PYPY", "/opt/venv/bin/python")
WALL_LIMIT = 90.0


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """The machinery itself failed; never a verdict."""


class Skipped(Exception):
    pass


class Worker:
    def __init__(self, env=None):
        self.env = env or {}
        self.proc = None

    def start(self):
        e = dict(os.environ)
        e.update({"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "ASIPROP_REPO": REPO, "PYTHONWARNINGS": "ignore",
                  "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8"})
        e.pop("PYTHONPATH", None)
        e.pop("PYTHONOPTIMIZE", None)
        e.update(self.env)
        self.errfile = open(os.devnull if not os.environ.get("ASIPROP_DEBUG") else "/dev/stderr", "w")
        self.proc = subprocess.Popen([PYPY, "-W", "ignore", os.path.join(HERE, "worker", "main.py")], stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, stderr=self.errfile, env=e, cwd="/")
        self.buf = b""

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
            except Exception:
                pass
            try:
                self.proc.wait(timeout=5)
            except Exception:
                self.proc.kill()
                self.proc.wait()
            self.proc.stdout.close()
            self.errfile.close()
            self.proc = None

    def kill(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            self.proc.stdout.close()
            self.errfile.close()
            self.proc = None

    def request(self, op, args):
        if self.proc is None:
            self.start()
        line = (json.dumps({"op": op, "args": args}) + "\n").encode()
        try:
            self.proc.stdin.write(line)
            self.proc.stdin.flush()
        except (BrokenPipeError, OSError):
            self.kill()
            return {"died": True}
        deadline = time.monotonic() + WALL_LIMIT
        fd = self.proc.stdout.fileno()
        while b"\n" not in self.buf:
            left = deadline - time.monotonic()
            if left <= 0:
                self.kill()
                return {"hang": "wall"}
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                continue
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                try:
                    rc = self.proc.wait(timeout=10)
                except subprocess.TimeoutExpired:
                    rc = None
                self.kill()
                return {"died": True, "rc": rc}
            self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)


class Runner:
    """What property modules call: run(op, **args) -> observation. Fresh-worker retry decides hangs and deaths."""

    def __init__(self, env=None):
        self.env = env or {}
        self.worker = Worker(self.env)
        self.calls = 0

    def __call__(self, op, **args):
        self.calls += 1
        reply = self.worker.request(op, args)
        if "hang" in reply or "died" in reply:
            # confirm in a fresh process before believing it
            first = reply
            self.worker.kill()
            self.worker = Worker(self.env)
            reply = self.worker.request(op, args)
            if "hang" in reply:
                self.worker.kill()
                self.worker = Worker(self.env)
                raise Violation("the operation did not terminate (%s limit, twice): %s" % (reply["hang"], op))
            if "died" in reply:
                self.worker.kill()
                self.worker = Worker(self.env)
                if reply.get("rc") in (-11, -6, -7, -4, -8) and first.get("rc", reply["rc"]) == reply["rc"]:
                    raise Violation("the process crashed (signal %d, twice) in %s" % (-reply["rc"], op))
                if first.get("rc") == reply.get("rc") == 1 and self.worker.request("ping", {}).get("ok"):
                    raise Violation("the interpreter died (out of memory, twice) in %s" % op)
                raise HarnessError("worker died twice on %s (%r, %r)" % (op, first, reply))
        if "harness_error" in reply:
            raise HarnessError(reply["harness_error"])
        if "skip" in reply:
            raise Skipped(reply["skip"])
        return reply["ok"]

    def close(self):
        self.worker.stop()


def judge(prop, case, runner):
    """prop.judge; an observation that lacks what every observation of the property has is a violation, not a crash of the check."""
    try:
        return prop.judge(case, runner)
    except (KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("the observation has not the form the property requires (%s: %s at %s:%d)" % (type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno))


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def brief(x, n=600):
    s = json.dumps(x, sort_keys=True, default=lambda o: getattr(o, "desc", repr(o))) if not isinstance(x, str) else x
    return s if len(s) <= n else s[:n] + "...(%d)" % len(s)


def diff(expected, observed, path=""):
    """First difference between expected and observed structures, or None."""
    if isinstance(expected, dict) and isinstance(observed, dict) and "$b" not in expected:
        for k in expected:
            if k not in observed:
                return "%s.%s absent in %s" % (path, k, brief(observed, 200))
            d = diff(expected[k], observed[k], path + "." + k)
            if d:
                return d
        return None
    if isinstance(expected, list) and isinstance(observed, list):
        if len(expected) != len(observed):
            return "%s has %d entries, expected %d: %s vs %s" % (path, len(observed), len(expected), brief(observed, 200), brief(expected, 200))
        for i, (a, b) in enumerate(zip(expected, observed)):
            d = diff(a, b, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(expected, Pred):
        if expected.test(observed):
            return None
        return "%s is %s, expected %s" % (path, brief(observed, 300), expected.desc)
    if isinstance(expected, OneOf):
        if any(diff(v, observed) is None for v in expected.values):
            return None
        return "%s is %s, expected one of %s" % (path, brief(observed, 200), brief(expected.values, 200))
    if isinstance(expected, bool):
        expected = int(expected)
    if type(expected) != type(observed) or expected != observed:
        return "%s is %s, expected %s" % (path, brief(observed, 300), brief(expected, 300))
    return None


class OneOf:
    def __init__(self, *values):
        self.values = list(values)


class Pred:
    """A custom acceptance test for one observed value; `shape` tells the worker how to report it."""

    def __init__(self, test, desc, shape=None):
        self.test, self.desc, self.shape = test, desc, shape


def Text(raw):
    """An ASCII field: trailing NULs, and the blanks before them, are padding and not part of the text
    (a NUL in front of trailing blanks may be kept or dropped)."""
    text = bytes(raw).decode("latin-1")
    want = (text.rstrip("\0").rstrip(" "), text.rstrip(" \0"))
    return Pred(lambda o: isinstance(o, str) and o in want, "text %r" % want[1])


def Bytes(raw):
    """The bytes of a field however they are held (bytes, bytearray or a list of byte values)."""
    want = bytes(raw)

    def test(o):
        if isinstance(o, dict) and "$b" in o:
            return o["$b"] == want.hex()
        return isinstance(o, list) and o == list(want)
    return Pred(test, "bytes %s" % want.hex())


def is_absent(o):
    return o is None or (isinstance(o, dict) and ("$missing" in o or "$none" in o))


def Absent(shape=None):
    return Pred(is_absent, "absent", shape)


def AbsentOrEmpty():
    return Pred(lambda o: is_absent(o) or o == [] or o == {"$b": ""} or o == "", "absent or empty")


def shape_of(expected):
    """The attribute structure the worker should report for an expected structure."""
    if isinstance(expected, Pred):
        return expected.shape
    if isinstance(expected, OneOf):
        return None
    if isinstance(expected, dict):
        if "$b" in expected:
            return None
        return {k: shape_of(v) for k, v in expected.items()}
    if isinstance(expected, list):
        # a list of leaves is reported as a leaf list
        return [shape_of(v) for v in expected]
    return None


def B(data):
    return {"$b": bytes(data).hex()}


# ---------------------------------------------------------------- dictionary of interesting integers

def mined_ints():
    """Integer constants occurring in the sources under test: a dictionary for the generators (not an oracle)."""
    out = set()
    for path in sorted(glob.glob(os.path.join(REPO, "src/infi/asi/**/*.py"), recursive=True)):
        if path.endswith("asc.py") or path.endswith("__version__.py"):
            continue
        try:
            tree = ast.parse(open(path, encoding="utf-8").read())
        except Exception:
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and isinstance(node.value, int) and not isinstance(node.value, bool):
                if 0 <= node.value < 1 << 70:
                    out.add(node.value)
            elif (isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Pow, ast.LShift, ast.Mult))
                  and isinstance(node.left, ast.Constant) and isinstance(node.right, ast.Constant)
                  and isinstance(node.left.value, int) and isinstance(node.right.value, int)
                  and node.right.value < 1 << 16 and node.left.value < 1 << 32):
                try:
                    if isinstance(node.op, ast.Mult):
                        v = node.left.value * node.right.value
                    elif node.right.value > 70:
                        continue
                    elif isinstance(node.op, ast.Pow):
                        v = node.left.value ** node.right.value
                    else:
                        v = node.left.value << node.right.value
                except Exception:
                    continue
                if v < 1 << 70:
                    out.add(v)
    return sorted(out)


_MINED = None


def interesting(lo, hi):
    global _MINED
    if _MINED is None:
        _MINED = mined_ints()
    s = set()
    for v in _MINED:
        for d in (-1, 0, 1):
            s.add(v + d)
    for k in range(0, 65):
        for d in (-1, 0, 1):
            s.add((1 << k) + d)
    s.update([lo, lo + 1, hi, hi - 1])
    for pat in (0x0123456789abcdef, 0xfedcba9876543210, 0xa5a5a5a5a5a5a5a5, 0x5a5a5a5a5a5a5a5a, 0x8000000080000000, 0x0102030405060708):
        for k in (1, 2, 3, 4, 5, 6, 7, 8):
            s.add(pat >> (64 - 8 * k))
    return sorted(v for v in s if lo <= v <= hi)


# ---------------------------------------------------------------- running a property

def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.skipped = 0
        self.stopped = False
        self.excluded = {}

    def record(self, case, verdict):
        labels, nontrivial = verdict if isinstance(verdict, tuple) else (verdict, bool(verdict))
        for l in labels or ():
            self.labels[l] = self.labels.get(l, 0) + 1
        if nontrivial:
            h = case_hash(case)
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                n = len(self.nontrivial)
                if n in (1, 10, 100, 400, 1500):
                    self.samples.append(case)


SHRINK_SECONDS = 60          # how long a failure is made smaller


def run_shard(prop, seed, examples, runner, fixed, stats, budget):
    """Returns None or a list of (message, case, history), the smallest first; the others may need what was run before them.
    `budget` seconds after the start nothing more is generated."""
    started = time.monotonic()
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase
    history = []
    known = KNOWN.get(prop.ID, [])

    def attempt(case, in_history=True):
        stats.evaluations += 1
        try:
            verdict = judge(prop, case, runner)
        except Skipped:
            stats.skipped += 1
            return
        except Violation as v:
            k = match_known(known, case, str(v))
            if k is not None:
                stats.excluded[k["id"]] = stats.excluded.get(k["id"], 0) + 1
                return
            raise
        finally:
            if in_history and len(history) < 20000:
                history.append(case)
        stats.record(case, verdict)

    for case in fixed:
        if time.monotonic() - started > budget:
            stats.stopped = True
            return None
        try:
            attempt(case)
        except Violation as v:
            return [(str(v), case, list(history[:-1]))]

    failing = {}

    if examples <= 0:
        return None

    @hypothesis.seed(seed)
    @settings(max_examples=examples, database=None, deadline=None, derandomize=False, report_multiple_bugs=False, print_blob=False,
              suppress_health_check=[HealthCheck.too_slow, HealthCheck.large_base_example, HealthCheck.data_too_large],
              phases=[Phase.generate, Phase.shrink])
    @given(prop.strategy())
    def test(case):
        if "first" in failing:
            if time.monotonic() - failing["at"] > SHRINK_SECONDS:       # settle for the smallest so far
                if case == failing["last"][1]:
                    raise Violation(failing["last"][0])
                return
        elif time.monotonic() - started > budget:
            stats.stopped = True
            return
        try:
            attempt(case)
        except Violation as v:
            if "first" not in failing:
                failing["at"] = time.monotonic()
                failing["first"] = (str(v), case, list(history[:-1]))
            failing["last"] = (str(v), case, None)
            raise

    try:
        test()
    except Violation as v:
        return [failing["last"], failing["first"]]
    except HarnessError:
        raise
    except Exception as e:
        # Hypothesis found the failure not to be reproducible from the case alone (state carried between
        # cases): keep the first failing case with everything that was run before it.
        if "first" in failing and type(e).__name__ in ("Flaky", "FlakyFailure", "FlakyStrategyDefinition", "ExceptionGroup", "FlakyReplay"):
            return [failing["first"]]
        raise
    return None


# ---------------------------------------------------------------- known findings

def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(path):
        for entry in json.load(open(path)).get("findings", []):
            out.setdefault(entry["property"], []).append(entry)
    return out


KNOWN = load_known()


def match_known(known, case, message):
    for k in known:
        ok = True
        for key, value in k.get("match_case", {}).items():
            cur = case
            for part in key.split("."):
                cur = cur.get(part) if isinstance(cur, dict) else None
            if cur != value:
                ok = False
        if ok and k.get("match_message", "") in message:
            return k
    return None


def pattern(seed, n):
    if isinstance(seed, str) and seed[:1] == "=":
        if seed[1] == "t":          # zeros in the second half
            return pattern(int(seed[2:]), n - n // 2) + bytes(n // 2)
        if seed[1] == "h":          # zeros in the first half
            return bytes(n - n // 2) + pattern(int(seed[2:]), n // 2)
        return bytes.fromhex(seed[1:]) * n
    unit = hashlib.sha256(str(seed).encode()).digest()[:31]
    return (unit * (n // 31 + 1))[:n]


def data_rec(data):
    data = bytes(data)
    if len(data) <= 4096:
        return {"len": len(data), "hex": data.hex()}
    return {"len": len(data), "sha": hashlib.sha256(data).hexdigest()}


def one_request(obs, what):
    expect("build_error" not in obs, "%s: construction raised %s", what, brief(obs.get("build_error")))
    expect("error" not in obs, "%s: execution raised %s", what, brief(obs.get("error")))
    expect(len(obs["requests"]) == 1, "%s: %d requests were sent instead of one: %s", what, len(obs["requests"]), brief(obs["requests"]))
    return obs["requests"][0]
