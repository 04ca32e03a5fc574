"""The same work done over and over in one process: what is alive after each stretch of rounds."""
from common import *  # noqa
from common import op, build, run_command, make_exception
import gc, itertools, sys
import syscalls as S
import ops_exec as X
import ops_files as F


SIZED = frozenset([list, dict, set, str, bytes, bytearray])


def weigh():
    """How many objects are alive, and how much the containers and texts among them hold."""
    for _ in range(2):
        gc.collect()
    objects = gc.get_objects()
    held = sum(map(len, itertools.compress(objects, map(SIZED.__contains__, map(type, objects)))))
    return [len(objects), held]


def varied(item, n):
    """The item, with what differs from one command to the next: the address, the tail of the data, the details of the sense."""
    item = dict(item)
    if "cdb" in item and len(item["cdb"]) >= 12:
        item["cdb"] = item["cdb"][:4] + "%08x" % n + item["cdb"][12:]
    comp = dict(item.get("comp") or {})
    if "data" in comp and "cdb" in item:
        comp["data"] += "%08x" % n
    if comp.get("gen"):
        comp["gen"] += n
    if len(comp.get("sense", "")) >= 16 and int(comp["sense"][:2], 16) & 0x7e == 0x70:
        comp["sense"] = comp["sense"][:6] + "%08x" % n + comp["sense"][14:]
    if "comp" in item:
        item["comp"] = comp
    return item


class Forgetful(object):
    def append(self, what):
        pass


class Rounds(object):
    def __init__(self, case):
        self.case = case
        self.kept = {}          # command objects and configuration pages used in every round

    def run_item(self, ex, core, wait, k, item):
        from infi.asi.cdb.diagnostic import ses_pages
        if "cdb" in item:
            core.current = item
            if item.get("do") == "send":
                def callback(data, exception):
                    if item.get("cb") == "raise":
                        raise X.MyDeviceError("callback")
                return wait(ex.send(X.make_command(item), callback=None if item.get("cb") == "none" else callback))
            return wait(ex.call(X.make_command(item)))
        if item.get("do") == "wait":
            core.current = {}
            return wait(ex.wait())
        if "conf" in item:
            core.current = {"comp": {"data": item["conf"]}}
            if "page" not in self.kept.setdefault(k, {}) or not item.get("reuse"):
                self.kept[k]["page"] = run_command(ses_pages.get_ses_page(1)(), ex)
            core.current = {"comp": {"data": item["data"]}}
            return run_command(ses_pages.get_ses_page(item["code"])(self.kept[k]["page"]), ex)
        core.current = {"comp": item["comp"]}
        if item.get("reuse"):
            if k not in self.kept:
                self.kept[k] = build(item["obj"])
            return run_command(self.kept[k], ex)
        return run_command(build(item["obj"]), ex)

    def run_items(self, ex, core, wait, n):
        for k, item in enumerate(self.case["items"]):
            try:
                value = self.run_item(ex, core, wait, k, varied(item, n) if self.case.get("vary") else item)
                if self.case.get("show"):
                    repr(value)
            except Exception as e:
                self.failed += 1
                if self.case.get("show"):
                    str(e)


class Held(Rounds):
    """One executer for all the rounds."""

    def __enter__(self):
        self.s = X.Setup(self.case["platform"], self.case.get("opts") or {}, ())
        self.s.__enter__()
        return self

    def __exit__(self, *exc):
        self.s.__exit__(*exc)

    def round(self, n):
        self.run_items(self.s.executer, self.s.core, self.s.wait_for, n)
        dev = self.s.dev
        while dev is not None and getattr(dev, "outstanding", None):
            try:
                self.s.core.current = {}
                self.s.wait_for(self.s.executer.wait())
            except Exception:
                self.failed += 1
        del self.s.core.requests[:], self.s.core.io[:]
        self.s.core.current = None
        tidy(dev)


def tidy(dev):
    if dev is None:
        return
    if isinstance(dev, X.WinDevice):
        for event in [e for e in dev.events if e not in dev.pending]:
            del dev.events[event]
        del dev.opened[:], dev.closed[:], dev.finished[:]
    else:
        del dev.served[:], dev.order[:]


class Contexts(Rounds):
    """Contexts opened and closed in every round."""

    def __enter__(self):
        self.core = X.Core()
        platform = self.case["platform"]
        self.handles = F.WinHandles(self.core) if platform == "windows" else F.FakeHandles(self.core, platform)
        self.handles.__enter__()
        return self

    def __exit__(self, *exc):
        self.handles.__exit__(*exc)

    def round(self, n):
        import infi.asi.executers as contexts
        from infi.asi.coroutines.sync_adapter import sync_wait
        try:
            with getattr(contexts, self.case["ctx"])(self.case["path"]) as ex:
                self.run_items(ex, self.core, sync_wait, n)
                if self.case.get("end"):
                    raise make_exception(self.case["end"])
        except Exception:
            self.failed += 1
        del self.core.requests[:], self.core.io[:], self.handles.log[:]
        self.core.current = None
        if self.case["platform"] == "windows":
            tidy(self.handles.dev)
        else:
            del self.handles.flags[:]
            self.handles.gone.clear()
            self.handles.count = 0


class Reactor(Rounds):
    """Coroutines through the overlapped-I/O reactor, over one executer."""

    def __enter__(self):
        mod = X.win32()
        self.core = X.Core()
        self.dev = X.WinDevice(self.core)
        X.KERNEL32.dev = self.dev
        self.ex = mod.Win32CommandExecuter(mod.Win32AsyncFile(u"\\\\.\\PHYSICALDRIVE0"), max_queue_size=1000)
        return self

    def __exit__(self, *exc):
        pass

    def round(self, n):
        from infi.asi.coroutines.sync_adapter import async_wait

        def one(item):
            self.core.current = item
            try:
                data = yield self.ex.call(X.make_command(item))
            except Exception:
                if item.get("loose"):
                    raise
                self.failed += 1
                data = None
            yield data
        self.dev.pending.clear()        # what a failed round left with the device
        try:
            async_wait(*[one(varied(i, n)) for i in self.case["items"]])
        except Exception:
            self.failed += 1
        del self.core.requests[:], self.core.io[:]
        self.core.current = None
        tidy(self.dev)


class Decodes(Rounds):
    """Sense data and replies decoded and shown."""

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def round(self, n):
        from infi.asi.sense import get_sense_object_from_buffer
        from infi.asi.coroutines.sync_adapter import sync_wait
        for k, item in enumerate(self.case["items"]):
            try:
                if "sense" in item:
                    value = get_sense_object_from_buffer(bytes.fromhex(varied({"comp": item}, n)["comp"]["sense"] if self.case.get("vary") else item["sense"]))
                else:
                    self.ex = FakeExecuter([{"data": item["conf"]}, {"data": item["data"]}] if "conf" in item else [item["comp"]])
                    value = self.run_item(self.ex, _Nobody(), sync_wait, k, item)
                repr(value)
            except Exception:
                self.failed += 1


class _Nobody(object):
    current = None


KINDS = {"held": Held, "contexts": Contexts, "reactor": Reactor, "decodes": Decodes}


def _measure(case, warm, rounds, stretches):
    try:
        import pypyjit
        pypyjit.set_param("off")
    except ImportError:
        pass
    S.platform_string.attach(lambda *a: F.PLATFORM_STRINGS.get(case["platform"], "linux-ubuntu-noble-x64"))
    with KINDS[case["kind"]](case) as r:
        if hasattr(sys.modules.get("gevent"), "sink"):
            sys.modules["gevent"].sink = Forgetful()
        n = 0
        out = []

        for stretch in [warm] + [rounds] * stretches:
            r.failed = 0
            for _ in range(stretch):
                n += 1
                r.round(n)
            out.append(weigh())
        return {"weights": out, "failed": r.failed}


@op
def retention(case, warm, rounds, stretches, cpu=60):
    from ops_history import _forked, _import_all
    _import_all()
    F._preload()
    return _forked(lambda: _measure(case, warm, rounds, stretches), cpu)
