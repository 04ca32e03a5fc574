"""Programs run by several threads at once, each on devices of its own, under a given schedule.

Only one thread runs at a time.  It can be made to stop at every line of infi.asi, while a request is with the kernel and
where gevent would let others run; which thread goes on then, and for how long, is what the schedule says."""
from common import *  # noqa
from common import op, enc, exc_info, build, run_command
import os, sys, threading
import syscalls as S
import ops_exec as X
import ops_files as F
from ops_pack import dump

SOURCE = os.path.realpath(os.path.join(os.environ.get("ASIPROP_REPO", "/repo"), "src", "infi", "asi")) + os.sep
PATIENCE = 5.0          # seconds after which a thread that waits for its turn takes the others to be blocked
STUCK = 60.0


class Baton(object):
    def __init__(self, count, plan, every):
        self.alive = list(range(count))
        self.plan, self.every = list(plan), every
        self.gates = [threading.Semaphore(0) for _ in range(count)]
        self.turn, self.left = None, 0
        self.switches = self.points = 0
        self.free = False

    def choose(self, me):
        """Whose turn it is next, and for how many points."""
        if self.plan:
            who, length = self.plan.pop(0)
            return self.alive[who % len(self.alive)], length
        if self.every and me in self.alive:
            return self.alive[(self.alive.index(me) + 1) % len(self.alive)], self.every
        return (me if me in self.alive else self.alive[0]), self.every or 1 << 60

    def grant(self, me):
        self.turn, self.left = self.choose(me)
        if self.turn != me:
            self.gates[self.turn].release()

    def wait(self, me):
        if not self.gates[me].acquire(timeout=PATIENCE):
            self.free = True        # somebody holds what the one whose turn it is needs: let everybody run
            for gate in self.gates:
                gate.release()

    def point(self, me):
        if self.free or self.turn != me:
            return
        self.points += 1
        self.left -= 1
        if self.left > 0:
            return
        self.grant(me)
        if self.turn != me:
            self.switches += 1
            self.wait(me)

    def start(self):
        self.grant(None)

    def done(self, me):
        self.alive.remove(me)
        if self.alive and not self.free:
            self.grant(me)


class PerThread(object):
    """Lists and values of which every thread has its own."""

    def __init__(self):
        self.of = {}

    def index(self, ident=None):
        return self.of.get(threading.get_ident() if ident is None else ident, -1)


class Log(object):
    def __init__(self, who):
        self.who, self.lists = who, {}

    def append(self, x):
        self.lists.setdefault(self.who.index(), []).append(x)

    def __getitem__(self, i):
        return self.lists.setdefault(self.who.index(), [])[i]

    def __len__(self):
        return len(self.lists.get(self.who.index(), []))


class ThreadCore(X.Core):
    def __init__(self, who, baton):
        self.who, self.baton, self.now = who, baton, {}
        X.Core.__init__(self)
        self.requests = Log(who)

    @property
    def current(self):
        return self.now.get(self.who.index())

    @current.setter
    def current(self, value):
        self.now[self.who.index()] = value

    def interleave(self):
        self.baton.point(self.who.index())


class Yields(object):
    def __init__(self, who, baton):
        self.who, self.baton = who, baton

    def append(self, what):
        self.baton.point(self.who.index())


def _run(platform, programs, plan, every, trace):
    import infi.asi.executers as contexts
    from infi.asi.cdb.diagnostic import ses_pages
    from infi.asi.coroutines.sync_adapter import sync_wait
    who, baton = PerThread(), Baton(len(programs), plan, every)
    core = ThreadCore(who, baton)
    handles = F.WinHandles(core) if platform == "windows" else F.FakeHandles(core, platform)
    handles.log = Log(who)
    results = [[] for _ in programs]
    values = [[] for _ in programs]
    S.platform_string.attach(lambda *a: F.PLATFORM_STRINGS[platform])
    if hasattr(sys.modules.get("gevent"), "sink"):
        sys.modules["gevent"].sink = Yields(who, baton)

    def keep(k, value):
        if isinstance(value, BaseException):
            report = lambda: dict(exc_info(value), sense=dump(getattr(value, "sense_obj", None)))
        else:
            report = lambda: dump(value)
        first = report()
        values[k].append((report, first))
        return first

    def one(ex, item):
        if "cdb" in item:
            core.current = item
            return sync_wait(ex.call(X.make_command(item)))
        if "conf" in item:
            core.current = {"comp": {"data": item["conf"]}}
            page = run_command(ses_pages.get_ses_page(1)(), ex)
            core.current = {"comp": {"data": item["data"]}}
            return run_command(ses_pages.get_ses_page(item["code"])(page), ex)
        core.current = {"comp": item["comp"]}
        return run_command(build(item["obj"]), ex)

    def program(k):
        for block in programs[k]:
            out = {"items": []}
            results[k].append(out)
            try:
                with getattr(contexts, block["ctx"])(block["path"]) as ex:
                    for item in block["items"]:
                        try:
                            out["items"].append({"ok": keep(k, one(ex, item))})
                        except Exception as e:
                            out["items"].append({"error": keep(k, e)})
                            if item.get("loose"):
                                raise
            except Exception as e:
                out["error"] = exc_info(e)

    def thread(k):
        def local(frame, event, arg):
            if event == "line":
                baton.point(k)
            return local

        def tracer(frame, event, arg):
            code = frame.f_code
            return local if code.co_filename.startswith(SOURCE) and code.co_name != "<module>" else None
        who.of[threading.get_ident()] = k
        baton.wait(k)
        try:
            if trace:
                sys.settrace(tracer)
            program(k)
        except BaseException as e:
            results[k].append({"escaped": exc_info(e)})
        finally:
            sys.settrace(None)
            baton.done(k)
    threads = [threading.Thread(target=thread, args=(k,)) for k in range(len(programs))]
    stuck = []
    with handles:
        for t in threads:
            t.daemon = True
            t.start()
        baton.start()
        for k, t in enumerate(threads):
            t.join(STUCK)
            if t.is_alive():
                stuck.append(k)
    if stuck:
        return {"stuck": stuck}
    changed = [[k, first, report()] for k in range(len(programs)) for report, first in values[k]]
    return {"results": results, "logs": [handles.log.lists.get(k, []) for k in range(len(programs))], "changed": [c for c in changed if c[1] != c[2]],
            "requests": [[{n: v for n, v in r.items() if n not in ("tag", "id")} for r in core.requests.lists.get(k, [])] for k in range(len(programs))],
            "open": len(handles.dev.handles) if platform == "windows" else handles.left_open,
            "switches": baton.switches, "points": baton.points, "free": int(baton.free)}


@op
def threads(platform, programs, plan, every):
    """programs: per thread a list of {"ctx", "path", "items"}; each is also run on its own, in a process of its own."""
    from ops_history import _forked, _import_all
    _import_all()
    F._preload()
    return {"all": _forked(lambda: _run(platform, programs, plan, every, True)), "alone": [_forked(lambda p=p: _run(platform, [p], [], 0, False)) for p in programs]}
