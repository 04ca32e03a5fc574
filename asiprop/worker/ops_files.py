"""Device handles: the executer contexts over fake handles, and UnixFile over real pipes and sockets."""
from common import *  # noqa
from common import op, enc, exc_info, make_exception, MyDeviceError, pattern, data_rec
import fcntl, importlib, os, resource, select, time, threading, socket, sys, errno as _errno
import syscalls as S
import ops_exec as X

DEVICES = "/dev/", "/devices/", "\\\\"
SYSTEM = "/dev/null", "/dev/zero", "/dev/full", "/dev/random", "/dev/urandom", "/dev/shm/", "/dev/fd/", "/dev/std"


def is_device(path):
    path = os.fsdecode(path) if isinstance(path, (str, bytes)) else ""
    return path.startswith(DEVICES) and not path.startswith(SYSTEM)


class FakeHandles(object):
    """Fake devices behind real descriptors: open, read, write, close and ioctl are emulated for device paths, whatever real devices there are;
    the descriptor is the read end of a pipe which holds a byte for every response that can be read."""

    LOWEST = 300            # a number of its own for every handle of a case, so that a stale one is noticed

    def __init__(self, core, platform):
        self.core, self.platform = core, platform
        self.log = []
        self.open_fds = {}      # fd -> (path, device, write end of the pipe)
        self.count = 0
        self.gone = set()
        self.flags = []

    def os_open(self, path, flags, mode=0o777, **kw):
        if not is_device(path):
            return S.os_open.real(path, flags, mode, **kw)
        if "missing" in path:
            self.log.append(["open failed", path])
            raise OSError(missing_code(path), os.strerror(missing_code(path)), path)
        r, w = os.pipe()
        fd = fcntl.fcntl(r, fcntl.F_DUPFD, self.LOWEST + 2 * self.count)
        self.count += 1
        S.os_close.real(r)
        self.gone.discard(fd)
        self.open_fds[fd] = (path, X.SGDevice(self.core, []), w)
        self.log.append(["open", path, flags & 3])
        self.flags.append(flags & ~os.O_CLOEXEC)
        return fd

    def os_close(self, fd):
        if fd in self.gone:
            self.log.append(["close of a closed handle", fd])
            raise OSError(_errno.EBADF, "bad file descriptor")
        if fd not in self.open_fds:
            return S.os_close.real(fd)
        path, dev, w = self.open_fds.pop(fd)
        self.gone.add(fd)
        S.os_close.real(fd)
        S.os_close.real(w)
        self.log.append(["close", path])

    def os_read(self, fd, n):
        if fd not in self.open_fds:
            return S.os_read.real(fd, n)
        path, dev, w = self.open_fds[fd]
        before = len(dev.outstanding)
        try:
            return dev.read(n)
        finally:
            for _ in range(before - len(dev.outstanding)):
                S.os_read.real(fd, 1)

    def os_write(self, fd, data):
        if fd not in self.open_fds:
            return S.os_write.real(fd, data)
        path, dev, w = self.open_fds[fd]
        before = len(dev.outstanding)
        try:
            return dev.write(data)
        finally:
            for _ in range(len(dev.outstanding) - before):
                S.os_write.real(w, b"r")
            self.core.requests[-1].update(path=path, via="write")

    def ioctl(self, fd, request, arg=0, mutate_flag=True):
        fd = fd if isinstance(fd, int) else fd.fileno()
        if fd not in self.open_fds:
            return S.ioctl.real(fd, request, arg, mutate_flag)
        path = self.open_fds[fd][0]
        func, size = {"linux": (X.linux_ioctl, X.SG.size), "solaris": (X.solaris_ioctl, X.SOL.size), "aix": (X.aix_ioctl, X.AIX.size)}[self.platform]
        try:
            return X.IoctlPatch(self.core, func, size, fd)(fd, request, arg, mutate_flag)
        finally:
            self.core.requests[-1].update(path=path, via="ioctl")

    def calls(self):
        return [(S.os_open, self.os_open), (S.os_close, self.os_close), (S.os_read, self.os_read), (S.os_write, self.os_write), (S.ioctl, self.ioctl)]

    def __enter__(self):
        for forwarder, func in self.calls():
            forwarder.attach(func)
        return self

    def __exit__(self, *exc):
        for forwarder, func in self.calls():
            forwarder.detach()
        self.left_open = len(self.open_fds)
        for fd in list(self.open_fds):
            S.os_close.real(self.open_fds.pop(fd)[2])
            S.os_close.real(fd)


def missing_code(path):
    """The error code with which opening a "missing" device fails; it may follow the word."""
    return int(path.rpartition("missing-")[2]) if "missing-" in path else _errno.ENOENT


class WinHandles(object):
    def __init__(self, core):
        self.dev = X.WinDevice(core)
        self.core = core
        self.log = []
        dev = self.dev
        create, close = dev.create_file, dev.close_handle

        def create_file(path, access, *rest):
            if "missing" in path:
                dev.last_error = missing_code(path)
                self.log.append(["open failed", path])
                return -1
            h = create(path, access, *rest)
            self.log.append(["open", path, 2 if access & 0xC0000000 == 0xC0000000 else 0])
            return h

        def close_handle(handle):
            path = dev.handles.get(handle, {}).get("path")
            self.log.append(["close", path] if path else ["close of a closed handle", handle])
            return close(handle)
        ioctl = dev.ioctl

        def device_io(handle, *args):
            n = len(core.requests)
            try:
                return ioctl(handle, *args)
            finally:
                if len(core.requests) > n:
                    core.requests[-1]["path"] = dev.handles[handle]["path"]
        dev.create_file, dev.close_handle, dev.ioctl = create_file, close_handle, device_io

    def __enter__(self):
        X.win32()
        X.KERNEL32.dev = self.dev
        return self

    def __exit__(self, *exc):
        pass


PLATFORM_OF = {"windows": "windows", "linux_dm": "linux", "linux_sg": "linux", "solaris": "solaris", "aix": "aix"}


def _preload():
    X.win32()
    for name in ("infi.asi.executers", "infi.asi.unix", "infi.asi.linux", "infi.asi.solaris", "infi.asi.aix", "infi.asi.coroutines.sync_adapter"):
        importlib.import_module(name)


def _alone(func):
    """Run func in a process of its own: which platform this is may be remembered for the life of a process."""
    from ops_history import _forked
    _preload()
    out = _forked(func)
    if "hang" in out:
        return {"hang": out["hang"]}
    if "bad" in out:
        raise RuntimeError(out["bad"])
    return out["ok"]


PLATFORM_STRINGS = {"windows": "windows-x64", "linux": "linux-ubuntu-noble-x64", "solaris": "solaris-11-sparc", "aix": "aix-7.1-powerpc"}


@op
def contexts(platform, blocks):
    return _alone(lambda: _contexts(platform, blocks))


def _contexts(platform, blocks):
    """blocks: [{"ctx","path","calls":[{cmd.., "loose": bool}],"nested":[blocks],"end": None|{"raise":..}}]"""
    import infi.asi.executers as executers
    from infi.asi.coroutines.sync_adapter import sync_wait
    core = X.Core()
    handles = WinHandles(core) if platform == "windows" else FakeHandles(core, platform)
    log = handles.log
    S.platform_string.attach(lambda *a: PLATFORM_STRINGS[platform])

    def call(ex, cmd):
        core.current = cmd
        return sync_wait(ex.call(X.make_command(cmd)))

    def run(block):
        raised = []
        out = {"id": block["id"], "calls": []}
        try:
            with getattr(executers, block["ctx"])(block["path"]) as ex:
                log.append(["enter", block["id"]])
                for cmd in block["calls"]:
                    n = len(core.requests)
                    try:
                        outcome = {"ok": enc(call(ex, cmd))}
                    except Exception as e:
                        outcome = {"error": exc_info(e)}
                        if cmd.get("loose"):
                            raised.append(e)
                            out["calls"].append([cmd["id"], outcome, [r.get("path") for r in core.requests[n:]]])
                            raise
                    out["calls"].append([cmd["id"], outcome, [r.get("path") for r in core.requests[n:]]])
                for sub in block.get("nested", []):
                    out.setdefault("nested", []).append(run(sub))
                for cmd in block.get("left", []):          # sent, and not waited for
                    core.current = cmd
                    sync_wait(ex.send(X.make_command(cmd)))
                log.append(["leave", block["id"]])
                if block.get("end"):
                    e = make_exception(block["end"])
                    raised.append(e)
                    raise e
            out["end"] = "normal"
        except BaseException as e:
            if isinstance(e, X.DeviceIdle):
                raise
            out["end"] = "same exception" if raised and raised[-1] is e else "another exception" if raised else "failed"
            out["error"] = exc_info(e)
        log.append(["done", block["id"]])
        return out

    try:
        with handles:
            results = [run(b) for b in blocks]
    finally:
        S.platform_string.detach()
    still = len(handles.dev.handles) if platform == "windows" else handles.left_open
    return {"blocks": results, "log": log, "open": still}


@op
def entry_points(platform, steps):
    return _alone(lambda: _entry_points(platform, steps))


def _entry_points(platform, steps):
    """What the platform-independent entry points of infi.asi do on a platform.

    steps: ["file", path] | ["async_file", path] | ["executer", file, kwargs] | ["call", executer, cmd] | ["async_call", [[executer, cmd]..]] |
    ["close", file] | ["context", name, path, cmd] | ["reactor"]"""
    import infi.asi as asi
    import infi.asi.executers as contexts
    from infi.asi.coroutines.sync_adapter import sync_wait, async_wait
    core = X.Core()
    name = platform.split("-")[0]
    handles = WinHandles(core) if name == "windows" else FakeHandles(core, name)
    S.platform_string.attach(lambda *a: platform)
    files, executers, out = [], [], []

    def call(ex, cmd):
        core.current = cmd
        data = yield ex.call(X.make_command(cmd))
        yield data

    def do(step):
        if step[0] == "file":
            files.append(None)
            files[-1] = asi.create_os_file(step[1])
            return None
        if step[0] == "async_file":
            files.append(None)
            files[-1] = asi.create_async_os_file(step[1])
            return None
        if step[0] == "executer":
            executers.append(None)
            executers[-1] = asi.create_platform_command_executer(files[step[1]], **step[2])
            return executers[-1].is_queue_full()
        if step[0] == "call":
            return sync_wait(call(executers[step[1]], step[2]))
        if step[0] == "async_call":
            return async_wait(*[call(executers[e], cmd) for e, cmd in step[1]])
        if step[0] == "close":
            return files[step[1]].close()
        if step[0] == "context":
            with getattr(contexts, step[1])(step[2]) as ex:
                return sync_wait(call(ex, step[3]))
        return hasattr(asi.create_os_async_reactor(), "wait_for")
    try:
        with handles:
            for step in steps:
                before = len(core.requests), len(handles.log)
                try:
                    rec = {"ok": enc(do(step))}
                except Exception as e:
                    rec = {"error": exc_info(e)}
                rec["requests"] = core.requests[before[0]:]
                rec["log"] = handles.log[before[1]:]
                out.append(rec)
    finally:
        S.platform_string.detach()
    return {"steps": out, "flags": [o[1:] for o in handles.dev.opened] if name == "windows" else handles.flags}


class SkippedClock(object):
    """Inside this context waiting takes no time: time.sleep, select.select and poll objects skip the clock (time.time and its relatives) instead,
    and what is due meanwhile (`later`) happens on the way. Real time goes on counting, so that anything else that waits is only slower."""

    CLOCKS = "time", "monotonic", "perf_counter"

    def __init__(self):
        self.skipped = 0.0
        self.due = []           # (virtual time, function)
        self.real = {name: getattr(time, name) for name in self.CLOCKS}
        self.real_sleep, self.real_select, self.real_poll = time.sleep, select.select, select.poll
        self.undo = []

    def now(self):
        return self.real["monotonic"]() + self.skipped

    def later(self, seconds, function):
        self.due.append((self.now() + seconds, function))
        self.due.sort(key=lambda item: item[0])

    def deliver(self):
        while self.due and self.due[0][0] <= self.now():
            self.due.pop(0)[1]()

    def skip(self, seconds):
        """Up to `seconds`, and only as far as the next thing that is due; says whether that was it."""
        step = self.due[0][0] - self.now() if self.due else None
        if step is not None and (seconds is None or step <= seconds):
            self.skipped += max(step, 0)
            self.deliver()
            return True
        if seconds is None:
            raise HangsForever("waits for ever, nothing will come")
        self.skipped += seconds
        return False

    def sleep(self, seconds):
        if seconds < 0:
            raise ValueError("sleep length must be non-negative")
        end = self.now() + seconds
        while self.skip(max(end - self.now(), 0)):
            pass

    def wait(self, ready, seconds):
        self.deliver()
        end = None if seconds is None else self.now() + max(seconds, 0)
        found = ready()
        while not found and (end is None or seconds > 0):
            more = self.skip(None if end is None else max(end - self.now(), 0))
            found = ready()
            if not more:
                break
        return found

    def select(self, r, w, x, timeout=None):
        empty = [], [], []
        return self.wait(lambda: (lambda got: got if got != empty else None)(self.real_select(r, w, x, 0)), timeout) or empty

    def poll(self):
        clock, real = self, self.real_poll()

        class Poll(object):
            register, unregister, modify = real.register, real.unregister, real.modify

            def poll(self, timeout=None):
                return clock.wait(lambda: real.poll(0), None if timeout is None or timeout < 0 else timeout / 1000.0) or []
        return Poll()

    def __enter__(self):
        fakes = {self.real_sleep: self.sleep, self.real_select: self.select, self.real_poll: self.poll}
        for name in self.CLOCKS:
            fakes[self.real[name]] = lambda real=self.real[name]: real() + self.skipped
        for module in [time, select] + [m for name, m in list(sys.modules.items()) if name.split(".")[:2] == ["infi", "asi"] and m is not None]:
            for name, value in list(vars(module).items()):
                try:
                    fake = fakes.get(value)
                except TypeError:
                    continue
                if fake is not None:
                    self.undo.append((module, name, value))
                    setattr(module, name, fake)
        return self

    def __exit__(self, *exc):
        for module, name, value in self.undo:
            setattr(module, name, value)


class HangsForever(Exception):
    pass


_can_skip = []


def can_skip():
    """Whether the clock that UnixFile.read goes by can be skipped (if it waits in some other way, it is only judged in real time)."""
    if not _can_skip:
        from infi.asi.unix import UnixFile
        r, w = os.pipe()
        t = time.monotonic()
        with SkippedClock() as clock:
            try:
                UnixFile(r, 4).read(10)
                gave_up = False
            except Exception:
                gave_up = True
        _can_skip.append(gave_up and time.monotonic() - t < 2 and 3 < clock.skipped < 10)
        os.close(r)
        os.close(w)
    return _can_skip[0]


def numbered(fd, number):
    """The same open file under the first free number from `number` on, as in a process which has that many files open."""
    if not number:
        return fd
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    if soft != resource.RLIM_INFINITY and soft <= number + 50:
        try:
            resource.setrlimit(resource.RLIMIT_NOFILE, (hard if hard != resource.RLIM_INFINITY else 65536, hard))
        except (ValueError, OSError):
            return fd
    try:
        new = fcntl.fcntl(fd, fcntl.F_DUPFD, number)
    except OSError:
        return fd       # not that many are allowed here
    os.close(fd)
    return new


@op
def unix_file_waits(kind, actions, timeout, number=0):
    """A UnixFile over a real pipe or socket whose clock is skipped; ["later", seed, n, s]: arrives s seconds from now | ["idle", s] | ["read", size].
    A read reports which arrivals there were before and after it."""
    from infi.asi.unix import UnixFile
    if not can_skip():
        return None
    if kind == "socket":
        mine, peer = (x.detach() for x in socket.socketpair())
    else:
        mine, peer = os.pipe()
    mine = numbered(mine, number)
    out, arrived = [], []

    def arrive(i, data):
        os.write(peer, data)
        arrived.append(i)
    try:
        with SkippedClock() as clock:
            f = UnixFile(mine, timeout) if timeout is not None else UnixFile(mine)
            for i, act in enumerate(actions):
                if act[0] == "later":
                    data = pattern(act[1], act[2])
                    out.append({"now": clock.now()})
                    clock.later(act[3], lambda i=i, data=data: arrive(i, data))
                elif act[0] == "idle":
                    clock.sleep(act[1])
                    out.append(None)
                elif act[0] == "read":
                    start, skipped, before = clock.now(), clock.skipped, arrived[:]
                    try:
                        r = f.read(act[1])
                        rec = {"ok": enc(r), "data": r.hex() if isinstance(r, (bytes, bytearray)) else None}
                    except Exception as e:
                        rec = {"error": exc_info(e)}
                    out.append(dict(rec, now=start, t=clock.now() - start, skipped=clock.skipped - skipped, arrived=[before, arrived[:]]))
    finally:
        os.close(mine)
        os.close(peer)
    return out


@op
def unix_file(kind, actions, timeout, big=0, number=0):
    """A UnixFile over a real pipe or socket pair, driven by `actions`:
    ["peer_write", seed, n] | ["late_write", seed, n, ms] (with the next read) | ["peer_close"] | ["read", size] | ["write", seed, n] | ["take"] | ["close"]"""
    from infi.asi.unix import UnixFile
    if kind == "socket":
        a, b = socket.socketpair()
        mine, peer = a.detach(), b.detach()
    elif kind == "packets":
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        mine, peer = a.detach(), b.detach()
    elif kind == "pipe_r":
        mine, peer = os.pipe()
    else:
        peer, mine = os.pipe()
    if big:
        try:
            fcntl.fcntl(mine, 1031, 1 << 20)       # F_SETPIPE_SZ
        except OSError:
            os.close(mine)
            os.close(peer)
            return None
    mine = numbered(mine, number)
    peer_open, out, late = True, [], None
    f = UnixFile(mine, timeout) if timeout is not None else UnixFile(mine)
    closed = False
    try:
        for act in actions:
            if act[0] == "peer_write":
                data, n = pattern(act[1], act[2]), 0
                while n < len(data):
                    n += os.write(peer, data[n:])
                out.append(None)
            elif act[0] == "late_write":
                data = pattern(act[1], act[2])
                late = threading.Timer(act[3] / 1000.0, os.write, (peer, data))
                late.start()
                out.append(None)
            elif act[0] == "peer_close":
                os.close(peer)
                peer_open = False
                out.append(None)
            elif act[0] == "read":
                t = time.monotonic()
                try:
                    r = f.read(act[1])
                    rec = {"ok": data_rec(r) if isinstance(r, (bytes, bytearray)) else {"type": type(r).__name__}}
                except Exception as e:
                    rec = {"error": exc_info(e)}
                rec["s"] = int((time.monotonic() - t) * 1000)
                if late is not None:
                    late.join()
                    late = None
                out.append(rec)
            elif act[0] == "write":
                data = pattern(act[1], act[2])
                try:
                    out.append({"ok": enc(f.write(data))})
                except Exception as e:
                    out.append({"error": exc_info(e)})
            elif act[0] == "take":
                got = b""
                while select.select([peer], [], [], 0)[0]:
                    chunk = os.read(peer, 1 << 20)
                    if not chunk:
                        break
                    got += chunk
                out.append({"ok": data_rec(got)})
            elif act[0] == "close":
                r = {"ok": enc(f.close())}
                closed = True
                try:
                    os.fstat(mine)
                    r["still_open"] = 1
                    os.close(mine)
                except OSError:
                    r["still_open"] = 0
                out.append(r)
    finally:
        if late is not None:
            late.join()
        for fd in ([] if closed else [mine]) + ([peer] if peer_open else []):
            try:
                os.close(fd)
            except OSError:
                pass
    return out
