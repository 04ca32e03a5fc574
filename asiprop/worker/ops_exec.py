"""Fake kernels: the Linux SG character device, the Linux/Solaris/AIX pass-through ioctls and the Windows
DeviceIoControl entry points.  Structure layouts are written out here from the platform headers, not taken
from the code under test.  Nothing here judges: requests, callbacks and outcomes are reported."""
from common import *  # noqa
from common import op, enc, exc_info, data_rec, make_exception, MyDeviceError
import syscalls as S
import ctypes, struct, os, sys, errno as _errno


class DeviceIdle(Exception):
    """The executer waits for a response although nothing is outstanding: a real device would block forever."""


def peek(addr, n):
    return ctypes.string_at(addr, n) if n else b""


def poke(addr, data):
    if data:
        ctypes.memmove(addr, data, len(data))


class Core(object):
    """What every fake device shares: the command being issued, the log of requests and of I/O events."""

    def __init__(self):
        self.current = None
        self.requests = []
        self.io = []            # ("op", name) / ("yield",) in order

    def comp(self):
        return (self.current or {}).get("comp", {})

    during = None

    def interleave(self):
        """What others do while this request is with the kernel."""
        if self.during is not None:
            run, self.during = self.during, None
            run()

    def fail_if_asked(self):
        c = self.comp()
        if "oserr" in c:
            raise OSError(c["oserr"], os.strerror(c["oserr"]))
        if c.get("devraise"):
            raise MyDeviceError("device raised")

    def note(self, **rec):
        rec["id"] = (self.current or {}).get("id")
        self.requests.append(rec)
        self.interleave()
        return rec


class marking(object):
    """Logs one device operation, and whether it raised."""

    def __init__(self, core, name):
        self.core, self.name = core, name

    def __enter__(self):
        self.core.io.append(self.name)

    def __exit__(self, kind, value, tb):
        if kind is not None:
            self.core.io.append("raised")


def to_device(rec, kind, addr, length):
    if kind == "out":
        rec["data"] = data_rec(peek(addr, length)) if length < (1 << 26) else {"len": length}


def from_device(comp, addr, length):
    data = bytes.fromhex(comp.get("data", "")) if not comp.get("gen") else pattern(comp["gen"], length)
    poke(addr, data[:length])
    return min(len(data), length)


SG = struct.Struct("<iiBBHIQQQIIi4xQBBBBHHiII4x")
SG_NAMES = ("interface_id dxfer_direction cmd_len mx_sb_len iovec_count dxfer_len dxferp cmdp sbp timeout flags pack_id usr_ptr "
            "status masked_status msg_status sb_len_wr host_status driver_status resid duration info").split()


def sg_note(core, raw, **extra):
    h = dict(zip(SG_NAMES, SG.unpack(raw[:SG.size])))
    rec = core.note(size=len(raw), interface_id=h["interface_id"], direction=h["dxfer_direction"], cdb=peek(h["cmdp"], h["cmd_len"]).hex(), sense_len=h["mx_sb_len"],
                    has_sense=int(h["sbp"] != 0), dlen=h["dxfer_len"], iovec=h["iovec_count"], timeout=h["timeout"], flags=h["flags"], tag=h["pack_id"], has_data=int(h["dxferp"] != 0), **extra)
    to_device(rec, "out" if h["dxfer_direction"] == -2 else "", h["dxferp"], h["dxfer_len"])
    return h, rec


def sg_complete(h, comp):
    sense = bytes.fromhex(comp.get("sense", ""))[:h["mx_sb_len"]]
    if h["dxfer_direction"] in (-3, -4):
        from_device(comp, h["dxferp"], h["dxfer_len"])
    poke(h["sbp"], sense)
    st = comp.get("status", 0)
    h = dict(h, status=st, masked_status=(st >> 1) & 0x1f, msg_status=comp.get("msg", 0), sb_len_wr=len(sense), host_status=comp.get("host", 0),
             driver_status=comp.get("driver", 0), resid=comp.get("resid", 0), duration=comp.get("duration", 1),
             info=1 if (st or comp.get("host") or comp.get("driver")) else 0)
    return SG.pack(*[h[n] for n in SG_NAMES])


class SGDevice(object):
    """The io object of LinuxCommandExecuter: write() queues a request, read() returns one completion."""

    def __init__(self, core, order):
        self.core, self.order = core, list(order)
        self.outstanding = []
        self.handler = None
        self.served = []
        self.fd = -1

    def write(self, raw):
        with marking(self.core, "write"):
            return self._write(raw)

    def _write(self, raw):
        core = self.core
        h, rec = sg_note(core, bytes(raw), outstanding=len(self.outstanding), dup=int(any(o[0]["pack_id"] == SG.unpack(bytes(raw)[:SG.size])[11] for o in self.outstanding)))
        comp = core.comp()
        if "werr" in comp:
            rec["failed"] = 1
            raise OSError(comp["werr"], os.strerror(comp["werr"]))
        if comp.get("wraise"):
            rec["failed"] = 1
            raise {"KeyboardInterrupt": KeyboardInterrupt, "MyDeviceError": MyDeviceError}[comp["wraise"]]("write")
        if self.handler is not None:
            comp = self.handler(rec, h)
        self.outstanding.append((h, comp, rec["id"]))
        return len(raw)

    def read(self, size):
        with marking(self.core, "read"):
            return self._read(size)

    def _read(self, size):
        if not self.outstanding:
            raise DeviceIdle("read with nothing outstanding")
        event = self.order.pop(0) if self.order else 0
        if isinstance(event, dict):
            if "rerr" in event:
                self.served.append("rerr")
                raise OSError(event["rerr"], os.strerror(event["rerr"]))
            tags = [o[0]["pack_id"] for o in self.outstanding]
            tag = event["unknown"]
            while tag in tags:
                tag += 1
            self.served.append("unknown")
            return sg_complete(dict(self.outstanding[0][0], pack_id=tag, dxfer_direction=-1, sbp=0, mx_sb_len=0), {})[:size]
        h, comp, ident = self.outstanding.pop(event % len(self.outstanding))
        self.served.append(ident)
        return sg_complete(h, comp)[:size]


# ------------------------------------------------------------------ ioctl-based platforms

SOL = struct.Struct("<ihhQQQQBBBB4xQQ")          # uscsi_cmd, LP64
SOL_NAMES = "flags status timeout cdb bufaddr buflen resid cdblen rqlen rqstatus rqresid rqbuf path_instance".split()
AIX = struct.Struct("<HBBBBBBBBBBBxHHHIQQQQQ64sQQI4xQQ")
AIX_NAMES = ("version status_validity scsi_bus_status adap_status_type adapter_status adap_set_flags add_device_status adap_q_status q_tag_msg flags devflags "
             "q_flags command_length einval_arg autosense_length timeout data_length scsi_id lun_id buffer autosense cdb wwn node vlen vptr residual").split()


def linux_ioctl(core, request, raw):
    h, rec = sg_note(core, raw, request=request)
    core.fail_if_asked()
    return sg_complete(h, core.comp()), None


def solaris_ioctl(core, request, raw):
    h = dict(zip(SOL_NAMES, SOL.unpack(raw[:SOL.size])))
    kind = "in" if h["flags"] & 8 else "out"
    rec = core.note(request=request, flags=h["flags"], timeout=h["timeout"], cdb=peek(h["cdb"], h["cdblen"]).hex(), dlen=h["buflen"], sense_len=h["rqlen"], has_sense=int(h["rqbuf"] != 0),
                    has_data=int(h["bufaddr"] != 0), kind=kind)
    to_device(rec, kind, h["bufaddr"], h["buflen"])
    core.fail_if_asked()
    comp = core.comp()
    if kind == "in":
        from_device(comp, h["bufaddr"], h["buflen"])
    sense = bytes.fromhex(comp.get("sense", ""))[:h["rqlen"]]
    poke(h["rqbuf"], sense)
    status = comp.get("status", 0) | comp.get("reason", 0) << 8
    h.update(status=status - 65536 if status >= 32768 else status, rqstatus=comp.get("rqstatus", 0), resid=comp.get("resid", 0), rqresid=h["rqlen"] - len(sense))
    err = comp.get("errno_with_status")
    return SOL.pack(*[h[n] for n in SOL_NAMES]) + raw[SOL.size:], err


def aix_ioctl(core, request, raw):
    h = dict(zip(AIX_NAMES, AIX.unpack(raw[:AIX.size])))
    kind = "in" if h["flags"] & 1 else "out"
    rec = core.note(request=request, version=h["version"], timeout=h["timeout"], cdb=h["cdb"][:h["command_length"]].hex(), rest_zero=int(not any(h["cdb"][h["command_length"]:])),
                    dlen=h["data_length"], sense_len=h["autosense_length"], has_sense=int(h["autosense"] != 0), has_data=int(h["buffer"] != 0), kind=kind, devflags=h["devflags"])
    to_device(rec, kind, h["buffer"], h["data_length"])
    comp = core.comp()
    if "oserr" not in comp and not comp.get("devraise"):
        if kind == "in":
            from_device(comp, h["buffer"], h["data_length"])
        poke(h["autosense"], bytes.fromhex(comp.get("sense", ""))[:h["autosense_length"]])
    h.update(status_validity=comp.get("validity", 0), scsi_bus_status=comp.get("status", 0), adapter_status=comp.get("adapter", 0), einval_arg=comp.get("einval", 0),
             adap_status_type=comp.get("atype", 0), adap_set_flags=comp.get("aset", 0), residual=comp.get("resid", 0))
    if comp.get("devraise"):
        raise MyDeviceError("device raised")
    return AIX.pack(*[h[n] for n in AIX_NAMES]) + raw[AIX.size:], comp.get("oserr", comp.get("errno_with_status"))


class IoctlPatch(object):
    """Replaces fcntl.ioctl with the fake kernel, with the calling conventions of the real one."""

    def __init__(self, core, func, size, fd):
        self.core, self.func, self.size, self.fd = core, func, size, fd
        self.saved = None

    def __call__(self, fd, request, arg=0, mutate_flag=True):
        if (fd if isinstance(fd, int) else fd.fileno()) != self.fd and isinstance(self.saved, IoctlPatch):
            return self.saved(fd, request, arg)
        with marking(self.core, "ioctl"):
            return self._call(fd, request, arg)

    def _call(self, fd, request, arg):
        fd = fd if isinstance(fd, int) else fd.fileno()
        if fd != self.fd:
            raise OSError(_errno.EBADF, "wrong descriptor")
        if isinstance(arg, bytes):
            raw, err = self.func(self.core, request, arg)
            if err:
                raise OSError(err, os.strerror(err))
            return raw
        if isinstance(arg, int):
            addr = arg
        elif isinstance(arg, bytearray):
            raw, err = self.func(self.core, request, bytes(arg))
            arg[:len(raw)] = raw
            if err:
                raise OSError(err, os.strerror(err))
            return 0
        else:
            addr = ctypes.addressof(arg)
        raw, err = self.func(self.core, request, ctypes.string_at(addr, self.size))
        ctypes.memmove(addr, raw, self.size)
        if err:
            raise OSError(err, os.strerror(err))
        return 0

    def __enter__(self):
        self.saved = S.ioctl.attached[-1] if S.ioctl.attached else None
        S.ioctl.attach(self)
        return self

    def __exit__(self, *exc):
        S.ioctl.detach()


class LibcIoctl(object):
    """libc.ioctl as seen through ctypes: returns -1 and sets errno instead of raising."""

    def __init__(self, patch):
        self.patch = patch
        self.restype = ctypes.c_int
        self.argtypes = None
        self.errcheck = None

    def __call__(self, fd, request, arg):
        try:
            import fcntl
            result = fcntl.ioctl(fd, request, arg if isinstance(arg, int) else (arg.value if isinstance(arg, ctypes.c_void_p) else arg))
        except OSError as e:
            ctypes.set_errno(e.errno or 0)
            result = -1
        if self.errcheck is not None:
            return self.errcheck(result, self, (fd, request, arg))
        return result


class CDLLPatch(object):
    def __init__(self, patch):
        self.libc = type("FakeLibc", (object,), {})()
        self.libc.ioctl = LibcIoctl(patch)

    def find(self, name):
        return self.libc if name and "libc.a" in str(name) else None

    def __enter__(self):
        S.LIBRARIES.append(self.find)
        return self

    def __exit__(self, *exc):
        S.LIBRARIES.remove(self.find)


class Nothing(object):
    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


# ------------------------------------------------------------------ Windows

class Kernel32(object):
    """The entry points win32.py takes from kernel32; `dev` is the device currently attached."""

    def __init__(self):
        self.dev = None

    def GetLastError(self):
        return self.dev.last_error

    def FormatMessageA(self, *args):
        return 0

    def CreateFileW(self, *args):
        return self.dev.create_file(*args)

    def CloseHandle(self, handle):
        return self.dev.close_handle(getattr(handle, "value", handle))

    def DeviceIoControl(self, handle, *args):
        return self.dev.ioctl(getattr(handle, "value", handle), *args)

    def CreateEventW(self, *args):
        return self.dev.create_event(*args)

    def GetOverlappedResult(self, *args):
        return self.dev.overlapped_result(*args)

    def WaitForMultipleObjects(self, *args):
        return self.dev.wait_many(*args)


KERNEL32 = Kernel32()


def win32():
    """infi.asi.win32 with the Windows type sizes (32-bit longs)."""
    if "infi.asi.win32" not in sys.modules:
        ctypes.windll = type("windll", (object,), {"kernel32": KERNEL32})()
        saved = ctypes.c_ulong
        ctypes.c_ulong = ctypes.c_uint32
        try:
            importlib.import_module("infi.asi.win32")
        finally:
            ctypes.c_ulong = saved
    return sys.modules["infi.asi.win32"]


SPT = struct.Struct("<HBBBBBBB3xII4xQI16s4x")
SPT_NAMES = "length status path target lun cdblen senselen datain dlen timeout buffer senseoff cdb".split()


def address(x):
    if x is None:
        return 0
    if isinstance(x, int):
        return x
    obj = getattr(x, "_obj", x)
    return ctypes.addressof(obj)


class WinDevice(object):
    """Handles, events and SCSI_PASS_THROUGH_DIRECT requests."""

    def __init__(self, core, order=(), path_error=None):
        self.core = core
        self.last_error = 0
        self.handles = {}
        self.events = {}
        self.pending = {}       # event -> finishing function
        self.order = list(order)
        self.next_handle = 0x100
        self.path_error = path_error
        self.opened = []
        self.closed = []
        self.finished = []

    STEP = 0x10000          # handles are 32 bits wide, and no fewer of them tell one from another

    def create_file(self, path, access, share, sec, creation, flags, template):
        if self.path_error:
            self.last_error = self.path_error
            return -1
        self.next_handle += self.STEP
        self.handles[self.next_handle] = dict(path=path, flags=flags)
        self.opened.append([path, access, share, creation, flags])
        return self.next_handle

    def close_handle(self, handle):
        self.closed.append(int(handle in self.handles))
        if handle not in self.handles:
            self.last_error = 6
            return 0
        del self.handles[handle]
        return 1

    def event_of(self, overlapped):
        """OVERLAPPED.hEvent; the code packs longs with their native size, which is 8 here and 4 on Windows."""
        a, size = address(overlapped), ctypes.sizeof(getattr(overlapped, "_obj", overlapped))
        for off in (32, 24):
            if size >= off + 8:
                event = struct.unpack("<Q", ctypes.string_at(a + off, 8))[0]
                if event in self.events:
                    return event
        return None

    def create_event(self, *args):
        self.next_handle += self.STEP
        self.events[self.next_handle] = False
        return self.next_handle

    def ioctl(self, handle, *args):
        with marking(self.core, "ioctl"):
            ok = self._ioctl(handle, *args)
            if not ok:
                self.core.io.append("raised")
            return ok

    def _ioctl(self, handle, code, inbuf, insize, outbuf, outsize, returned, overlapped):
        core = self.core
        self.last_error = 0
        if handle not in self.handles:
            self.last_error = 6
            return 0
        a = address(inbuf)
        h = dict(zip(SPT_NAMES, SPT.unpack(ctypes.string_at(a, SPT.size))))
        kind = {0: "out", 1: "in", 2: "none"}.get(h["datain"], "bad")
        rec = core.note(code=code, insize=insize, outsize=outsize, same=int(address(outbuf) == a), length=h["length"], cdb=h["cdb"][:h["cdblen"]].hex(), rest_zero=int(not any(h["cdb"][h["cdblen"]:])),
                        kind=kind, dlen=h["dlen"], timeout=h["timeout"], has_data=int(h["buffer"] != 0), sense_len=h["senselen"], senseoff=h["senseoff"],
                        pathetc=[h["path"], h["target"], h["lun"]], overlapped=int(overlapped is not None), outstanding=len(self.pending))
        to_device(rec, kind, h["buffer"], h["dlen"])
        comp = dict(core.comp())
        if "winerr" in comp and not comp.get("late"):
            self.last_error = comp["winerr"]
            return 0

        def finish():
            if "winerr" in comp:
                return comp["winerr"]
            hh = dict(h)
            if kind == "in":
                hh["dlen"] = from_device(comp, h["buffer"], h["dlen"])
            elif "xfer" in comp:
                hh["dlen"] = min(h["dlen"], comp["xfer"])
            hh["status"] = comp.get("status", 0)
            sense = bytes.fromhex(comp.get("sense", ""))[:h["senselen"]]
            poke(a + h["senseoff"], sense)
            hh["senselen"] = len(sense)         # tells how much sense data was returned
            ctypes.memmove(a, SPT.pack(*[hh[n] for n in SPT_NAMES]), SPT.size)
            return 0
        if overlapped is not None and self.handles[handle]["flags"] & 0x40000000 and not comp.get("immediate"):
            event = self.event_of(overlapped)
            if event not in self.events:
                self.last_error = 87
                return 0
            self.pending[event] = (finish, rec["id"], inbuf, overlapped)
            self.last_error = 997
            return 0
        err = finish()
        if err:
            self.last_error = err
            return 0
        if returned is not None:
            getattr(returned, "_obj", returned).value = SPT.size + h["senselen"]
        self.last_error = comp.get("stale_error", 0)
        return 1

    def run(self, event):
        finish, ident, _, _ = self.pending.pop(event)
        self.finished.append(ident)
        self.events[event] = ("done", finish())

    def wait_many(self, count, array, wait_all, timeout):
        self.core.io.append("wait")
        events = list(struct.unpack("<%dQ" % count, ctypes.string_at(address(array), 8 * count)))
        for e in events:
            if e not in self.events:
                self.last_error = 6
                return 0xFFFFFFFF
        if count > 64 or count == 0:
            self.last_error = 87
            return 0xFFFFFFFF
        # let the device finish something, in the scripted order, until one of the awaited events is signalled
        for i, e in enumerate(events):
            if self.events[e]:
                return i
        while True:
            candidates = [e for e in events if e in self.pending]
            if not candidates:
                return 258
            pick = self.order.pop(0) if self.order else 0
            burst = 1
            if isinstance(pick, list):
                pick, burst = pick
            for b in range(burst):
                if not candidates:
                    break
                self.run(candidates.pop(pick % len(candidates)))
            for i, e in enumerate(events):
                if self.events[e]:
                    return i

    def overlapped_result(self, handle, overlapped, returned, block):
        event = self.event_of(overlapped)
        if event not in self.events:
            self.last_error = 6
            return 0
        if not self.events[event]:
            if not block:
                self.last_error = 996
                return 0
            self.run(event)
        err = self.events[event][1]
        if err:
            self.last_error = err
            return 0
        getattr(returned, "_obj", returned).value = 1
        self.last_error = 0
        return 1


# ------------------------------------------------------------------ executers over the fakes

FD = 77


class IO(object):
    def __init__(self, fd=FD):
        self.fd = fd


def make_command(spec):
    from infi.asi import SCSIReadCommand, SCSIWriteCommand
    cdb = bytes.fromhex(spec["cdb"])
    if spec.get("bad") == "cdb":        # no request can be made of these
        cdb = None
    if spec.get("bad") == "read":
        return SCSIReadCommand(cdb, "much")
    if spec.get("bad") == "write":
        return SCSIWriteCommand(cdb, None)
    if "read" in spec:
        return SCSIReadCommand(cdb, spec["read"])
    return SCSIWriteCommand(cdb, bytes.fromhex(spec["write"]) if isinstance(spec["write"], str) else pattern(*spec["write"]))


class Setup(object):
    """One executer over one fake kernel."""

    def __init__(self, platform, opts, order, fd=FD):
        self.core = core = Core()
        self.patches = [Nothing()]
        kwargs = {}
        for k in ("max_queue_size", "timeout"):
            if opts.get(k) is not None:
                kwargs[k] = opts[k]
        self.dev = None
        if platform == "linux_sg":
            from infi.asi.linux import LinuxCommandExecuter
            self.dev = SGDevice(core, order)
            self.executer = LinuxCommandExecuter(self.dev, **kwargs)
        elif platform == "linux_ioctl":
            from infi.asi.linux import LinuxIoctlCommandExecuter
            self.patches = [IoctlPatch(core, linux_ioctl, SG.size, fd)]
            self.executer = LinuxIoctlCommandExecuter(IO(fd), **kwargs)
        elif platform == "solaris":
            from infi.asi.solaris import SolarisCommandExecuter
            self.patches = [IoctlPatch(core, solaris_ioctl, SOL.size, fd)]
            self.executer = SolarisCommandExecuter(IO(fd), **kwargs)
        elif platform in ("aix", "aix_libc"):
            from infi.asi.aix import AixCommandExecuter
            p = IoctlPatch(core, aix_ioctl, AIX.size, fd)
            self.patches = [p] + ([CDLLPatch(p)] if platform == "aix_libc" else [])
            self.executer = AixCommandExecuter(IO(fd), **kwargs)
        elif platform in ("windows", "windows_async"):
            mod = win32()
            self.dev = WinDevice(core, order)
            KERNEL32.dev = self.dev
            self.io = (mod.Win32File if platform == "windows" else mod.Win32AsyncFile)(u"\\\\.\\PHYSICALDRIVE0")
            self.executer = mod.Win32CommandExecuter(self.io, **kwargs)
        else:
            raise ValueError(platform)
        if opts.get("adapter"):
            from infi.asi import CommandExecuterAdapter
            from infi.asi.coroutines.sync_adapter import sync_call
            self.executer = CommandExecuterAdapter(self.executer, sync_call)
            self.wait_for = lambda x: x
        else:
            from infi.asi.coroutines.sync_adapter import sync_wait
            self.wait_for = sync_wait

    def __enter__(self):
        if hasattr(sys.modules.get("gevent"), "sink"):
            sys.modules["gevent"].sink = self.core.io
        for p in self.patches:
            p.__enter__()
        return self

    def __exit__(self, *exc):
        for p in reversed(self.patches):
            p.__exit__(*exc)


def guarded(func):
    try:
        return {"ok": enc(func())}
    except Exception as e:
        return {"error": exc_info(e)}
    except (KeyboardInterrupt, SystemExit) as e:
        return {"error": exc_info(e)}


def describe_error(e):
    info = exc_info(e)
    return info


@op
def history(platform, steps, order=(), opts=None):
    """Run a history of send/call/wait steps; report requests, callbacks, outcomes."""
    events = []
    with Setup(platform, opts or {}, order) as s:
        core, ex = s.core, s.executer

        def issue(spec, how):
            saved = core.current
            core.current = spec
            try:
                if how == "call":
                    return s.wait_for(ex.call(make_command(spec)))
                cb = spec.get("cb", "record")

                def callback(data, exception):
                    events.append(["cb", spec["id"], enc(data), None if exception is None else describe_error(exception)])
                    if cb == "raise":
                        raise MyDeviceError("callback %d" % spec["id"])
                    if cb == "resend":
                        events.append(["nested", spec["then"]["id"], guarded(lambda: issue(spec["then"], "send"))])
                if cb == "none":
                    return s.wait_for(ex.send(make_command(spec)))
                return s.wait_for(ex.send(make_command(spec), callback=callback))
            finally:
                core.current = saved

        for step in steps:
            before = len(core.requests)
            if step["do"] in ("send", "call"):
                outcome = guarded(lambda: issue(step["cmd"], step["do"]))
                ident = step["cmd"]["id"]
            else:
                outcome = guarded(lambda: s.wait_for(ex.wait()))
                ident = None
            full = guarded(lambda: ex.is_queue_full())
            events.append(["step", step["do"], ident, outcome, full, len(core.requests) - before])
    out = {"events": events, "requests": core.requests, "io": core.io}
    if s.dev is not None and hasattr(s.dev, "served"):
        out["served"] = s.dev.served
        out["left"] = len(s.dev.outstanding)
    return out


class Yielding(object):
    """Where gevent's sleep reports: what other greenlets do while this one lets them run."""
    run = None

    def append(self, what):
        if self.run is not None:
            run, self.run = self.run, None
            run()


class Executers(object):
    """Several executers, each over a device of its own."""

    def __init__(self, setups, keep):
        self.setups = {k: Setup(s["platform"], s.get("opts") or {}, s.get("order", ()), FD + k) for k, s in enumerate(setups) if k in keep}
        self.events = {k: [] for k in self.setups}
        self.values = []
        self.greenlets = Yielding()

    def remember(self, k, value):
        from ops_pack import dump
        if isinstance(value, BaseException):
            report = lambda: dict(describe_error(value), sense=dump(getattr(value, "sense_obj", None)))
        else:
            report = lambda: enc(value)
        first = report()
        self.values.append((k, report, first))
        return first

    def step(self, step):
        k = step["on"]
        s = self.setups[k]
        core, ex = s.core, s.executer
        saved = core.current, core.during, KERNEL32.dev, self.greenlets.run
        if isinstance(s.dev, WinDevice):
            KERNEL32.dev = s.dev
        others = (lambda: [self.step(x) for x in step["during"]]) if step.get("during") else None
        core.during, self.greenlets.run = (None, others) if step.get("at") == "yield" else (others, None)
        core.current = spec = step.get("cmd")
        try:
            if step["do"] == "call":
                value = s.wait_for(ex.call(make_command(spec)))
            elif step["do"] == "send" and s.dev is not None and hasattr(s.dev, "outstanding"):
                def callback(data, exception):
                    self.events[k].append(["cb", spec["id"], self.remember(k, data if exception is None else exception)])
                value = s.wait_for(ex.send(make_command(spec), callback=callback))
            elif step["do"] == "wait":
                value = s.wait_for(ex.wait())
            else:
                value = None
            out = {"ok": self.remember(k, value)}
        except (Exception, KeyboardInterrupt) as e:
            out = {"error": self.remember(k, e)}
        left = core.during or self.greenlets.run
        core.current, core.during, KERNEL32.dev, self.greenlets.run = saved
        if left:
            left()
        self.events[k].append(["step", step["do"], spec and spec["id"], out, guarded(lambda: ex.is_queue_full())])

    def run(self, steps):
        entered = []
        try:
            for s in self.setups.values():
                entered.append(s.__enter__())
            if "gevent" in sys.modules:
                sys.modules["gevent"].sink = self.greenlets
            for step in steps:
                self.step(step)
        finally:
            for s in reversed(entered):
                s.__exit__(None, None, None)
        changed = [[k, first, report()] for k, report, first in self.values]
        requests = {str(k): [{n: v for n, v in r.items() if n not in ("tag",)} for r in s.core.requests] for k, s in self.setups.items()}
        return {"events": {str(k): e for k, e in self.events.items()}, "requests": requests, "changed": [c for c in changed if c[1] != c[2]]}


@op
def executers(setups, steps, projections):
    """A history over several executers in one process, and each executer's own steps in a process of their own."""
    from ops_history import _forked, _import_all
    _import_all()
    win32()
    for name in ("linux", "solaris", "aix"):
        importlib.import_module("infi.asi." + name)
    return {"all": _forked(lambda: Executers(setups, range(len(setups))).run(steps)),
            "alone": [_forked(lambda k=k, p=p: Executers(setups, [k]).run(p)) for k, p in enumerate(projections)]}


@op
def layouts():
    """Structure sizes seen by the code under test (a self-check of the fake kernels)."""
    from infi.asi.linux import SGIO
    from infi.asi.solaris import SCSICMD
    from infi.asi.aix import sc_passthru
    return {"sg": [ctypes.sizeof(SGIO), SG.size], "sol": [ctypes.sizeof(SCSICMD), SOL.size], "aix": [ctypes.sizeof(sc_passthru), AIX.size],
            "win": [ctypes.sizeof(win32().SCSIPassThroughDirect), SPT.size + 255]}


@op
def sense_error(sense, shape, platform="linux_sg", direct=False):
    """Fail a command with this sense data; report the error's raw bytes, decoded object and its text."""
    out = {}
    if direct:
        from infi.asi.sense import get_sense_object_from_buffer
        try:
            obj = get_sense_object_from_buffer(bytes.fromhex(sense))
        except Exception as e:
            return {"error": exc_info(e)}
    else:
        comp = {"status": 2, "sense": sense}
        if platform.startswith("aix"):
            comp["validity"] = 1
            comp["errno_with_status"] = 5
        with Setup(platform, {}, ()) as s:
            s.core.current = {"id": 1, "comp": comp}
            try:
                s.wait_for(s.executer.call(make_command({"cdb": "000000000000", "read": 0})))
                return {"returned": 1}
            except Exception as e:
                out["error"] = exc_info(e)
                out["text"] = str(e)[:2000]
                obj = getattr(e, "sense_obj", "absent")
    out["class"] = type(obj).__name__
    out["obj"] = observe(obj, shape) if obj is not None and not isinstance(obj, str) else None
    try:
        out["repr"] = repr(obj)[:2000]
    except Exception as e:
        out["repr_error"] = exc_info(e)
    return out


@op
def shown_errors(platform, senses, order):
    """Fail commands with sense data and show the errors in this order."""
    from ops_pack import dump
    errors = []
    for sense in senses:
        comp = {"status": 2, "sense": sense}
        if platform.startswith("aix"):
            comp.update(validity=1, errno_with_status=5)
        with Setup(platform, {}, ()) as s:
            s.core.current = {"id": 1, "comp": comp}
            try:
                s.wait_for(s.executer.call(make_command({"cdb": "000000000000", "read": 0})))
                errors.append(None)
            except Exception as e:
                errors.append(e)
    first = [dump(e.sense_obj) for e in errors]
    texts = []
    for k in order:
        try:
            texts.append([k, str(errors[k]), {"again": str(errors[k]), "sense": first[k], "repr": repr(errors[k])}])
        except Exception as e:
            texts.append([k, exc_info(e), {}])
    return {"texts": texts, "same": int(first == [dump(e.sense_obj) for e in errors])}


@op
def asc_names(code, fixed):
    """code_name and repr of all 256 qualifiers of one additional sense code."""
    from infi.asi.sense import get_sense_object_from_buffer
    out = []
    for q in range(256):
        if fixed:
            buf = bytes([0x70, 0, 5, 0, 0, 0, 0, 10, 0, 0, 0, 0, code, q, 0, 0, 0, 0])
        else:
            buf = bytes([0x72, 5, code, q, 0, 0, 0, 0])
        try:
            obj = get_sense_object_from_buffer(buf)
            a = obj.additional_sense_code
            out.append([a.code, a.qualifier, a.code_name, repr(obj)[:600]])
        except Exception as e:
            out.append(["error", exc_info(e)["type"], str(e)[:200], ""])
    return out


@op
def reactor(commands, order=(), shared=False, bare=False):
    """Run several command coroutines through the overlapped-I/O reactor.

    commands: list of {"steps": [cmd...], "depth": n, "catch": bool}; bare commands are the executer's own call()."""
    mod = win32()
    core = Core()
    dev = WinDevice(core, order)
    KERNEL32.dev = dev
    trace = []

    def new_executer():
        return mod.Win32CommandExecuter(mod.Win32AsyncFile(u"\\\\.\\PHYSICALDRIVE0"), max_queue_size=1000)

    common = new_executer() if shared else None

    def io(ex, spec, depth):
        if depth:
            data = yield io(ex, spec, depth - 1)
            yield data
        else:
            core.current = spec
            data = yield ex.call(make_command(spec))
            yield data

    def run(index, c):
        ex = common or new_executer()
        results = []
        trace.append(["start", index])
        for spec in c["steps"]:
            try:
                data = yield io(ex, spec, c.get("depth", 0))
                results.append(enc(data))
            except Exception as e:
                if not c.get("catch"):
                    trace.append(["fail", index])
                    raise
                results.append({"caught": [x.__name__ for x in type(e).__mro__]})
        trace.append(["end", index])
        yield results

    from infi.asi.coroutines.sync_adapter import async_wait
    S.platform_string.attach(lambda *a: "windows-x64")
    try:
        gens = [run(i, c) for i, c in enumerate(commands)]
        try:
            result = async_wait(*gens)
            out = {"ok": [r if isinstance(r, list) else {"$obj": repr(r)[:100]} for r in result]}
        except Exception as e:
            out = {"error": exc_info(e)}
    finally:
        S.platform_string.detach()
    out.update(trace=trace, requests=[r["id"] for r in core.requests], finished=dev.finished, peak=max([r["outstanding"] for r in core.requests] or [0]) + 1)
    return out


class Unusual(object):
    """A value compared by identity."""


@op
def wrapped(calls):
    """Call one function again and again through one gevent_friendly wrapper; report what the function and the caller saw."""
    from infi.asi import gevent_friendly
    log = sys.modules["gevent"].sink = []
    seen = []
    now = []

    def func(*a, **k):
        seen.append((a, k))
        log.append("call")
        value, exc = now
        if exc is not None:
            raise exc
        return value
    wrapper = gevent_friendly(func)
    outs = []
    for c in calls:
        del seen[:], log[:]
        args = [Unusual() if a == "$u" else a for a in c["args"]]
        kwargs = {k: Unusual() if a == "$u" else a for k, a in c["kwargs"].items()}
        outcome = c["outcome"]
        value = Unusual() if outcome == "$u" else outcome
        exc = make_exception(outcome) if isinstance(outcome, dict) and "raise" in outcome else None
        now[:] = value, exc
        out = {}
        try:
            r = wrapper(*args, **kwargs)
            out["returned"] = int(r is value)
        except BaseException as e:
            out["raised"] = int(e is exc)
        out["calls"] = len(seen)
        out["same"] = int(all(len(a) == len(args) and all(x is y for x, y in zip(a, args)) and sorted(k) == sorted(kwargs) and all(k[n] is kwargs[n] for n in k) for a, k in seen))
        out["log"] = list(log)
        outs.append(out)
    return outs
