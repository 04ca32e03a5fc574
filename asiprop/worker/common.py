import importlib, traceback, os, sys
import json

OPS = {}


class Skip(Exception):
    pass


def op(func):
    OPS[func.__name__] = func
    return func


def enc(value):
    """Encode an observed leaf value as JSON."""
    if value is None or isinstance(value, (bool, int)):
        return int(value) if isinstance(value, bool) else value
    if isinstance(value, str):
        return value
    if isinstance(value, (bytes, bytearray)):
        return {"$b": bytes(value).hex()}
    if isinstance(value, (list, tuple)):
        return [enc(v) for v in value]
    if isinstance(value, float):
        return {"$f": repr(value)}
    if isinstance(value, dict):
        return {"$d": sorted([[enc(k), enc(v)] for k, v in value.items()], key=repr)}
    return {"$obj": type(value).__name__}


def dec(value):
    if isinstance(value, dict):
        if "$b" in value:
            return bytes.fromhex(value["$b"])
        if "$fill" in value:
            return pattern(*value["$fill"])
        if "$huge" in value:
            return HugeBuffer(value["$huge"])
        if "$cls" in value:
            return resolve(value["$cls"])
        if "$new" in value:
            return resolve(value["$new"])(*[dec(a) for a in value.get("args", [])],
                                          **{k: dec(v) for k, v in value.get("kwargs", {}).items()})
        return {k: dec(v) for k, v in value.items()}
    if isinstance(value, list):
        return [dec(v) for v in value]
    return value


class HugeBuffer(object):
    """Stands for a buffer too large to build: it only has a length."""

    def __init__(self, size):
        self.size = size

    def __len__(self):
        return self.size

    def __bytes__(self):
        return b"huge"


def resolve(name):
    modname, _, attr = name.partition(":")
    obj = importlib.import_module(modname)
    for part in attr.split("."):
        obj = getattr(obj, part)
    return obj


def observe(obj, shape):
    """Report `obj` following `shape`: a dict names attributes, a list describes elements, else a leaf."""
    if isinstance(shape, dict) and "$b" not in shape and "$f" not in shape and "$d" not in shape:
        if obj is None:
            return {"$none": True}
        out = {}
        for key, sub in shape.items():
            if key == "$type":
                out[key] = type(obj).__name__
                continue
            if key.endswith("()"):
                try:
                    value = getattr(obj, key[:-2])()
                except Exception as e:
                    out[key] = {"$raised": type(e).__name__}
                    continue
            else:
                try:
                    value = getattr(obj, key)
                except AttributeError:
                    out[key] = {"$missing": key}
                    continue
            out[key] = observe(value, sub)
        return out
    if isinstance(shape, list):
        if not isinstance(obj, (list, tuple)):
            return {"$notlist": enc(obj)}
        out = []
        for i, item in enumerate(obj):
            if i < len(shape):
                out.append(observe(item, shape[i]))
            else:
                out.append({"$extra": enc(item)})
                if i > len(shape) + 3:
                    out.append({"$more": len(obj)})
                    break
        return out
    return enc(obj)


def exc_info(e):
    mro = [c.__name__ for c in type(e).__mro__ if c is not object]
    info = {"type": type(e).__name__, "mro": mro, "module": type(e).__module__, "msg": str(e)[:400]}
    for name in ("errno", "win32_errno"):
        if isinstance(getattr(e, name, None), int):
            info[name] = getattr(e, name)
    if hasattr(e, "sense_buffer"):
        try:
            info["sense_buffer"] = bytes(e.sense_buffer).hex()
        except Exception:
            info["sense_buffer"] = None
    return info


class MyDeviceError(Exception):
    """An exception class of the harness, raised by fake devices."""


def make_exception(spec):
    errors = importlib.import_module("infi.asi.errors")
    name = spec["raise"]
    if name == "AsiCheckConditionError":
        from infi.asi.sense import get_sense_object_from_buffer
        buf = bytes.fromhex(spec["sense"])
        return errors.AsiCheckConditionError(buf, get_sense_object_from_buffer(buf))
    if name in ("AsiRequestQueueFullError", "AsiReservationConflictError"):
        return getattr(errors, name)()
    if name.startswith("Asi"):
        return getattr(errors, name)(spec.get("msg", "injected"))
    if name == "MyDeviceError":
        return MyDeviceError(spec.get("msg", "injected"))
    if name == "OSError":
        return OSError(spec.get("errno", 5), "injected")
    if name == "KeyboardInterrupt":
        return KeyboardInterrupt("injected")
    if name == "StopIteration":
        return StopIteration("injected")
    if name == "GeneratorExit":
        return GeneratorExit("injected")
    return {"ValueError": ValueError, "RuntimeError": RuntimeError, "IOError": IOError, "KeyError": KeyError,
            "AssertionError": AssertionError, "TypeError": TypeError, "MemoryError": MemoryError,
            "SystemExit": SystemExit}[name]("injected")


class FakeExecuter(object):
    """Stands for a device layer: records each request and yields the next scripted reply."""

    def __init__(self, replies):
        self.replies = list(replies)
        self.requests = []
        self.injected = []

    def call(self, command):
        from infi.asi import SCSIReadCommand, SCSIWriteCommand
        if isinstance(command.command, int):        # bytes(n) would make n zero bytes; no device layer accepts that
            raise TypeError("a command must be bytes")
        rec = {"cdb": bytes(command.command).hex(), "cdb_type": type(command.command).__name__}
        if isinstance(command, SCSIReadCommand):
            rec["kind"] = "read"
            rec["len"] = command.max_response_length
        elif isinstance(command, SCSIWriteCommand):
            rec["kind"] = "write"
            rec["data"] = data_rec(command.data)
        else:
            rec["kind"] = type(command).__name__
        self.requests.append(rec)
        reply = self.replies.pop(0) if self.replies else {"data": None}
        if "raise" in reply:
            e = make_exception(reply)
            self.injected.append(e)
            raise e
        data = None if reply.get("data") is None else bytes.fromhex(reply["data"])
        if data is not None and reply.get("trunc") and isinstance(command, SCSIReadCommand):
            data = data[:command.max_response_length]       # a device never returns more than was asked for
            if reply.get("pad") is not None:                # what the OS hands back: a buffer of the full length
                pad = bytes.fromhex(reply["pad"]) or b"\0"
                missing = max(0, command.max_response_length - len(data))
                data += (pad * (missing // len(pad) + 1))[:missing]
        yield data


def build(spec):
    """spec: {"cls": "module:attr", "args": [...], "kwargs": {...}, "set": {...}, "factory": true}"""
    target = resolve(spec["cls"])
    args = [dec(a) for a in spec.get("args", [])]
    kwargs = {k: dec(v) for k, v in spec.get("kwargs", {}).items()}
    obj = target(*args, **kwargs)
    if spec.get("factory"):          # e.g. get_vpd_page(code) -> class -> instance
        obj = obj(*[dec(a) for a in spec.get("fargs", [])])
    for name, value in spec.get("set", {}).items():
        parts = name.split(".")
        holder = obj
        for part in parts[:-1]:
            holder = getattr(holder, part)
        setattr(holder, parts[-1], dec(value))
    return obj


def run_command(cmd, executer):
    from infi.asi.coroutines.sync_adapter import sync_wait
    return sync_wait(cmd.execute(executer))


def pattern(seed, n):
    if isinstance(seed, str) and seed[:1] == "=":
        if seed[1] == "t":          # zeros in the second half
            return pattern(int(seed[2:]), n - n // 2) + bytes(n // 2)
        if seed[1] == "h":          # zeros in the first half
            return bytes(n - n // 2) + pattern(int(seed[2:]), n // 2)
        return bytes.fromhex(seed[1:]) * n
    import hashlib
    unit = hashlib.sha256(str(seed).encode()).digest()[:31]
    return (unit * (n // 31 + 1))[:n]


def data_rec(data):
    import hashlib
    data = bytes(data)
    if len(data) <= 4096:
        return {"len": len(data), "hex": data.hex()}
    return {"len": len(data), "sha": hashlib.sha256(data).hexdigest()}
