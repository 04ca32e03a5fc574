"""Interprets generated coroutine programs with the real coroutine runner."""
from common import *  # noqa
from common import op, enc, exc_info
import types


class GenError(Exception):
    pass


class SubGenError(GenError):
    pass


EXC = dict(ValueError=ValueError, KeyError=KeyError, LookupError=LookupError, RuntimeError=RuntimeError, GenError=GenError, SubGenError=SubGenError,
           KeyboardInterrupt=KeyboardInterrupt, OSError=OSError, Exception=Exception, BaseException=BaseException, SystemExit=SystemExit,
           AssertionError=AssertionError, IOError=IOError, AttributeError=AttributeError, GeneratorExit=GeneratorExit)


def value_of(spec, env):
    if isinstance(spec, dict):
        if "exc" in spec:
            return EXC[spec["exc"]](spec["msg"])
        if "last" in spec:
            return env["last"]
        if "tuple" in spec:
            return tuple(spec["tuple"])
        if "bytes" in spec:
            return bytes.fromhex(spec["bytes"])
        if "object" in spec:
            return opaque(spec)
    return spec


class Sendable(object):
    def __init__(self, n):
        self.left = n

    def __iter__(self):
        return self

    def __next__(self):
        if not self.left:
            raise StopIteration
        self.left -= 1
        return self.left

    def send(self, value):
        return next(self)

    def throw(self, *a):
        raise RuntimeError("a value was thrown into")

    def close(self):
        self.left = 0


class Closable(object):
    def __init__(self, n):
        self.left = n
        self.closed = False

    def close(self):
        self.closed = True


class Awaitable(Closable):
    def __await__(self):
        yield 1

    def get_result(self, block=False):
        return 17


def generator_function(n):
    def values():
        yield n
    return values


given = []


def opaque(spec):
    from infi.asi import OSAsyncIOToken
    n = spec["n"]
    v = {"list": lambda: list(range(n)), "list_iterator": lambda: iter(list(range(n))), "map": lambda: map(int, list(range(n))), "range": lambda: range(n),
         "dict": lambda: {i: i for i in range(n)}, "sendable": lambda: Sendable(n), "closable": lambda: Closable(n), "function": lambda: (lambda: n),
         "generator_function": lambda: generator_function(n), "awaitable": lambda: Awaitable(n), "token_class": lambda: type("SomeToken", (OSAsyncIOToken,), {})}[spec["object"]]()
    given.append((v, spec))
    return v


def show_opaque(v):
    for x, spec in given:
        if x is v:
            n, kind = spec["n"], spec["object"]
            if kind in ("sendable", "closable", "awaitable"):
                whole = v.left == n and not getattr(v, "closed", False)
            elif kind in ("list_iterator",):
                whole = v.__length_hint__() == n
            else:
                whole = True
            return spec if whole else {"used": spec}


def show(v):
    known = show_opaque(v)
    if known is not None:
        return known
    if isinstance(v, BaseException):
        return "exc:%s:%s" % (type(v).__name__, ",".join(str(a) for a in v.args))
    if isinstance(v, types.GeneratorType):
        return "generator!"
    if isinstance(v, tuple):
        return {"tuple": list(v)}
    if isinstance(v, bytes):
        return {"bytes": v.hex()}
    if v is None or isinstance(v, (int, str, list)):
        return v
    return "object:%s" % type(v).__name__


class Machine(object):
    def __init__(self):
        from infi.asi import OSAsyncIOToken
        self.log = []
        del given[:]
        machine = self

        class Token(OSAsyncIOToken):
            def __init__(self, spec):
                self.spec = spec

            def get_result(self, block=False):
                machine.log.append(["token", int(bool(block))])
                if "raise" in self.spec:
                    raise EXC[self.spec["raise"]](self.spec["msg"])
                return value_of(self.spec["value"], {})
        self.Token = Token

    def node(self, node):
        if "chain" in node:
            return self.chain(node["chain"], node["leaf"])
        return self.run(node)

    def chain(self, n, leaf):
        if n == 0:
            r = yield self.node(leaf)
        else:
            r = yield self.chain(n - 1, leaf)
        yield r

    def run(self, node):
        env = {"last": None}
        self.log.append(["start", node["id"]])
        yield from self.block(node["body"], env)
        self.log.append(["end", node["id"]])
        if "result" in node:
            yield value_of(node["result"], env)

    def block(self, stmts, env):
        for s in stmts:
            kind = s[0]
            if kind == "log":
                self.log.append(["log", s[1]])
            elif kind == "yield":
                env["last"] = yield value_of(s[1], env)
                self.log.append(["got", show(env["last"])])
            elif kind == "call":
                r = yield self.node(s[1])
                if "result" in s[1] or "chain" in s[1]:
                    env["last"] = r
                    self.log.append(["ret", show(r)])
                else:
                    self.log.append(["ret-void"])
            elif kind == "token":
                env["last"] = yield self.Token(s[1])
                self.log.append(["io", show(env["last"])])
            elif kind == "raise":
                raise EXC[s[1]](s[2])
            elif kind == "reraise":
                raise
            elif kind == "repeat":
                for i in range(s[1]):
                    yield from self.block(s[2], env)
            elif kind == "try":
                _, body, handlers, orelse, final = s
                try:
                    try:
                        yield from self.block(body, env)
                    except BaseException as e:
                        for names, hbody in handlers:
                            if any(isinstance(e, EXC[n]) for n in names):
                                self.log.append(["caught", show(e)])
                                yield from self.block(hbody, env)
                                break
                        else:
                            raise
                    else:
                        yield from self.block(orelse, env)
                finally:
                    if final is not None:
                        self.log.append(["finally"])
                        yield from self.block(final, env)
            else:
                raise HarnessFault(kind)


class HarnessFault(BaseException):
    pass


@op
def coroutine(program, how="sync_wait"):
    from infi.asi.coroutines import sync_adapter
    m = Machine()
    out = {}
    calls = [0]

    def entry(*args, **kwargs):
        calls[0] += 1
        out["entry_args"] = [list(args), sorted(kwargs.items())]
        return m.node(program)
    try:
        if how == "sync_wait":
            r = sync_adapter.sync_wait(m.node(program))
        elif how == "sync_call":
            r = sync_adapter.sync_call(entry, 1, 2, key="v")
            out["calls"] = calls[0]
        out["result"] = show(r)
    except HarnessFault:
        raise
    except BaseException as e:
        if type(e).__name__ == "CpuLimit":
            raise
        out["raised"] = show(e)
    out["log"] = m.log
    return out
