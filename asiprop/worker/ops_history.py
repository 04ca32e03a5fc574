"""Histories over several commands and replies, each run in a process of its own (forked from a worker that has only imported)."""
from common import *  # noqa
from common import op, resolve, exc_info, enc, dec, observe, FakeExecuter, build, run_command, make_exception
import json, os, importlib, pkgutil, signal, traceback
from ops_pack import dump

_ready = []


def _import_all():
    if not _ready:
        for m in ("infi.asi", "infi.asi.errors", "infi.asi.cdb", "infi.asi.coroutines.sync_adapter", "infi.asi.cdb.diagnostic.ses_pages", "infi.asi.cdb.inquiry.vpd_pages"):
            importlib.import_module(m)
        pkg = importlib.import_module("infi.asi.cdb")
        for _, name, _ in pkgutil.walk_packages(pkg.__path__, "infi.asi.cdb."):
            try:
                importlib.import_module(name)
            except Exception:
                pass
        _ready.append(1)


def spoil(value, seen):
    """Overwrite everything a decoded reply holds."""
    if id(value) in seen:
        return
    seen[id(value)] = value
    if isinstance(value, list):
        for v in list(value):
            spoil(v, seen)
        value.append("spoilt")
        return
    if isinstance(value, bytearray):
        for i in range(len(value)):
            value[i] ^= 0xFF
        return
    if isinstance(value, dict):
        for v in list(value.values()):
            spoil(v, seen)
        value["spoilt"] = 1
        return
    if type(value).__module__.startswith("infi.asi") and hasattr(value, "__dict__") and not isinstance(value, type):
        for n, v in sorted(vars(value).items()):
            if isinstance(v, int):
                setattr(value, n, v ^ 1)
            else:
                spoil(v, seen)


def reach(value, seen):
    if id(value) in seen or isinstance(value, type):
        return
    if isinstance(value, (list, tuple)):
        seen[id(value)] = value
        for v in value:
            reach(v, seen)
    elif isinstance(value, (dict, bytearray)):
        seen[id(value)] = value
    elif type(value).__module__.startswith("infi.asi") and hasattr(value, "__dict__"):
        seen[id(value)] = value
        for v in vars(value).values():
            reach(v, seen)


class History(object):
    def __init__(self, objects):
        self.specs = objects
        self.objs = [None] * len(objects)
        self.results = []
        self.last = {}
        self.out, self.started = [], []

    def build(self, i):
        spec = self.specs[i]
        if spec.get("decode"):
            self.objs[i] = resolve(spec["decode"])
            return
        spec = dict(spec["cmd"])
        if "conf" in self.specs[i]:
            spec["fargs" if spec.get("factory") else "args"] = []
            target = resolve(spec["cls"])
            obj = target(*[dec(a) for a in self.specs[i]["cmd"].get("args", [])])
            self.objs[i] = obj(self.last[self.specs[i]["conf"]])
            return
        self.objs[i] = build(spec)

    def step(self, s):
        what, i = s[0], s[1]
        rec = {"step": what, "i": i}
        self.started.append(rec)
        try:
            if what == "build":
                self.build(i)
            elif self.objs[i] is None:
                rec["none"] = 1
                for inner in s[3] if what == "run" else ():
                    self.step(inner)
            elif what == "set":
                holder = self.objs[i]
                for part in s[2].split(".")[:-1]:
                    holder = getattr(holder, part)
                getattr(holder, s[2].split(".")[-1])
                setattr(holder, s[2].split(".")[-1], s[3])
            elif what == "setn":
                obj = self.objs[i]
                names = sorted(n for n in (obj._all_field_names() if hasattr(obj, "_all_field_names") else vars(obj)) if not n.startswith("_") and isinstance(getattr(obj, n), int))
                if names:
                    setattr(obj, names[s[2] % len(names)], s[3])
            elif what == "show":
                rec["texts"] = [repr(self.last[i]), repr(self.last[i])]
            elif what == "text":
                rec["texts"] = [repr(self.objs[i]), repr(self.objs[i])]
            elif what == "dump":
                rec["object"] = dump(self.objs[i])
            elif what == "spoil":
                for r in self.results:
                    if r["i"] == i:
                        # what the reply was given (a configuration page) is not its own
                        given = {}
                        for x in self.results:
                            if x["i"] == self.specs[i].get("conf", -1):
                                reach(x["value"], given)
                        spoil(r["value"], given)
                        r["spoilt"] = True
            elif what == "run":
                self.run(i, s[2], s[3], rec)
        except Exception as e:
            rec["error"] = exc_info(e)
        self.out.append(rec)

    def run(self, i, reply, during, rec):
        if self.specs[i].get("decode"):
            for s in during:
                self.step(s)
            value = self.objs[i](bytes.fromhex(reply["data"]))
        else:
            history, during = self, list(during)

            class Device(FakeExecuter):
                def call(self, command):
                    rec["now"] = bytes(command.command).hex()
                    while during:
                        history.step(during.pop(0))
                    return FakeExecuter.call(self, command)
            ex = Device([reply])
            try:
                value = run_command(self.objs[i], ex)
            finally:
                rec["requests"] = ex.requests
                while during:
                    self.step(during.pop(0))
        rec["result"] = dump(value)
        self.last[i] = value
        self.results.append({"i": i, "value": value, "first": rec["result"]})

    def finish(self):
        changed = []
        for r in self.results:
            if not r.get("spoilt"):
                now = dump(r["value"])
                if now != r["first"]:
                    changed.append({"i": r["i"], "first": r["first"], "now": now})
        return {"out": self.out, "start_order": [next(i for i, r in enumerate(self.out) if r is rec) for rec in self.started], "changed": changed}


def _forked(func, cpu=10):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
            try:
                data = json.dumps({"ok": func()})
            except Exception:
                data = json.dumps({"bad": traceback.format_exc()})
            except BaseException as e:
                data = json.dumps({"hang": type(e).__name__})
            data = data.encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(b"".join(chunks) or b'{"bad": "child died"}')


@op
def independent(objects, steps, projections):
    """Run the steps in one process and each projection in a process of its own."""
    _import_all()

    def do(steps):
        h = History(objects)
        for s in steps:
            h.step(s)
        return h.finish()
    return {"all": _forked(lambda: do(steps)), "alone": [_forked(lambda p=p: do(p)) for p in projections]}


@op
def sequence(objects, steps):
    """The same without a process of its own."""
    h = History(objects)
    for s in steps:
        h.step(s)
    return h.finish()


@op
def sequence_shape(objects, steps, last, shape):
    h = History(objects)
    for s in steps:
        h.step(s)
    h.step(last)
    out = dict(h.out[-1])
    if "error" not in out:
        out["result"] = observe(h.results[-1]["value"], shape)
    return out
