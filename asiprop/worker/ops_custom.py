"""Commands and executer wrappers written the way a user of the library writes them, from a generated description."""
from common import *  # noqa
from common import op, enc, dec, exc_info
from ops_exec import Setup, FD
import sys


def struct_class(spec):
    """The style of read.py, tur.py and others: a CDB with instruct fields."""
    from infi.instruct import ConstField, UBInt8, UBInt16, UBInt32, UBInt64, BitFields, BitField, BitFlag, BitPadding, Padding, Field, FixedSizeBuffer
    from infi.asi.cdb import CDB
    from infi.asi.cdb.control import Control, DEFAULT_CONTROL
    from infi.asi.cdb.operation_code import OperationCode
    ints = {1: UBInt8, 2: UBInt16, 4: UBInt32, 8: UBInt64}
    fields = [ConstField("opcode", OperationCode(spec["opcode"]))]
    for f in spec["fields"]:
        default = [f["default"]] if f.get("default") is not None else []
        if f["kind"] == "int":
            fields.append(ints[f["size"]](f["name"], *default))
        elif f["kind"] == "bits":
            parts = []
            for p in f["parts"]:
                d = [p["default"]] if p.get("default") is not None else []
                parts.append(BitPadding(p["width"]) if p["name"] is None else BitFlag(p["name"], *d) if p.get("flag") else BitField(p["name"], p["width"], *d))
            fields.append(BitFields(*parts))
        elif f["kind"] == "pad":
            fields.append(Padding(f["size"]))
        else:
            fields.append(FixedSizeBuffer(f["name"], f["size"]))
    if spec["control"]:
        fields.append(Field("control", Control, DEFAULT_CONTROL))
    return CDB, {"_fields_": fields}


def buffer_class(spec):
    """The style of log_sense.py, reserve.py and others: a CDBBuffer with placed fields."""
    from infi.asi.cdb import CDBBuffer
    from infi.asi.cdb.control import ControlBuffer, DEFAULT_CONTROL_BUFFER, get_default_control_buffer
    from infi.instruct.buffer import Buffer, bytes_ref, be_uint_field, le_uint_field, bytearray_field, buffer_field
    d = {"operation_code": be_uint_field(where=bytes_ref[0], set_before_pack=spec["opcode"])}
    at = 1
    for f in spec["fields"]:
        default = {"default": f["default"]} if f.get("default") is not None else {}
        if f["kind"] == "int":
            make = le_uint_field if f.get("le") else be_uint_field
            d[f["name"]] = make(where=bytes_ref[at:at + f["size"]] if f["size"] > 1 else bytes_ref[at], **default)
        elif f["kind"] == "bits":
            low = 0
            for p in f["parts"]:
                if p["name"] is not None:
                    where = bytes_ref[at].bits[low] if p["width"] == 1 else bytes_ref[at].bits[low:low + p["width"]]
                    d[p["name"]] = be_uint_field(where=where, **({"default": p["default"]} if p.get("default") is not None else {}))
                low += p["width"]
        elif f["kind"] == "raw":
            d[f["name"]] = bytearray_field(where=bytes_ref[at:at + f["size"]])
        elif f["kind"] == "nested":
            inner = type(str("Inner_" + f["name"]), (Buffer,), {"low": be_uint_field(where=bytes_ref[0].bits[0:4]), "high": be_uint_field(where=bytes_ref[0].bits[4:8]), "rest": be_uint_field(where=bytes_ref[1:f["size"]])})
            d[f["name"]] = buffer_field(type=inner, where=bytes_ref[at:at + f["size"]], default=inner(**f["values"]))
        at += f["size"] if f["kind"] != "bits" else 1
    if spec["control"] == "default":
        d["control"] = buffer_field(type=ControlBuffer, where=bytes_ref[at], default=DEFAULT_CONTROL_BUFFER)
    elif spec["control"]:
        d["control"] = buffer_field(type=ControlBuffer, where=bytes_ref[at], set_before_pack=get_default_control_buffer)
    return CDBBuffer, d


class Session(object):
    def __init__(self, core, commands, layers):
        self.core, self.commands, self.log = core, commands, []

    def advance(self):
        cur = self.core.current
        if cur is not None and len(cur["rest"]) > 0:
            self.core.current = dict(cur, comp=cur["rest"][0], rest=cur["rest"][1:])

    def wrap(self, kind, executer):
        from infi.asi import CommandExecuterAdapter
        from infi.asi.errors import AsiException
        from infi.asi.coroutines.sync_adapter import sync_call
        session = self

        def forward(func, *args):
            result = yield func(*args)
            yield result

        def log(func, *args):
            session.log.append(["in", len(args)])
            try:
                result = yield func(*args)
            except Exception as e:
                session.log.append(["raised", type(e).__name__])
                raise
            session.log.append(["out", enc(result) if len(args) == 1 else None])
            yield result

        def retry(func, *args):
            try:
                result = yield func(*args)
            except AsiException:
                session.advance()
                result = yield func(*args)
            yield result

        def mask(func, *args):
            try:
                result = yield func(*args)
            except AsiException as e:
                result = b"masked"
            yield result
        return CommandExecuterAdapter(executer, {"forward": forward, "log": log, "retry": retry, "mask": mask, "sync": sync_call}[kind])


def command_class(spec, session):
    base, body = struct_class(spec) if spec["style"] == "struct" else buffer_class(spec)

    def __init__(self, plan, values):
        super(cls, self).__init__()
        self.plan = plan
        for name, value in values.items():
            set_value(self, name, value)

    def execute(self, executer):
        from infi.asi.errors import AsiException
        results = []
        for step in self.plan:
            if step["do"] == "set":
                set_value(self, step["name"], step["value"])
                continue
            try:
                if step["do"] == "sub":
                    result = yield session.commands[step["cmd"]].execute(executer)
                    results.append(["sub", result if isinstance(result, list) else enc(result)])
                    continue
                if step["do"] == "post":
                    answers = []
                    for one in step["items"]:
                        session.core.current = {"id": one["id"], "comp": one["comps"][0], "rest": []}
                        callback = None if one.get("silent") else lambda data, e, n=one["id"]: answers.append([n, "ok", enc(data)] if e is None else [n, "caught", exc_info(e)])
                        yield executer.send(request_of(one, bytes(self.create_datagram())), callback)
                    yield executer.wait()
                    results.append(["posted", sorted(answers, key=lambda a: a[0])])
                    continue
                datagram = self.create_datagram()
                if spec["style"] == "buffer":
                    datagram = bytes(datagram)
                request = request_of(step, datagram)
                session.core.current = {"id": step["id"], "comp": step["comps"][0], "rest": step["comps"][1:]}
                result = yield executer.call(request)
                results.append(["got", enc(result)])
            except AsiException as e:
                if not step.get("catch"):
                    raise
                results.append(["caught", exc_info(e)])
        yield results
    body = dict(body, __init__=__init__, execute=execute)
    cls = type(base)(str(spec["name"]), (base,), body)
    return cls


def request_of(step, datagram):
    from infi.asi import SCSIReadCommand, SCSIWriteCommand
    read, write = SCSIReadCommand, SCSIWriteCommand
    if step.get("own"):         # a kind of request of the user's
        class OwnRead(SCSIReadCommand):
            def __init__(self, size, *args):
                super(OwnRead, self).__init__(*args, max_response_length=size)

        class OwnWrite(SCSIWriteCommand):
            @property
            def description(self):
                return "write of %d bytes" % len(self.data)
        read, write = (lambda datagram, size: OwnRead(size, datagram)), OwnWrite
    return read(datagram, step["read"]) if "read" in step else write(datagram, dec_write(step["write"]))


def dec_write(w):
    return bytes.fromhex(w) if isinstance(w, str) else pattern(*w)


def set_value(obj, name, value):
    parts = name.split(".")
    for part in parts[:-1]:
        obj = getattr(obj, part)
    setattr(obj, parts[-1], dec(value))


@op
def custom(platform, classes, commands, layers, script):
    from infi.asi.coroutines.sync_adapter import sync_wait
    out = []
    with Setup(platform, {"max_queue_size": 8}, ()) as s:
        session = Session(s.core, [], layers)
        executer = s.executer
        for kind in layers:
            executer = session.wrap(kind, executer)
        made = [command_class(c, session) for c in classes]
        for c in commands:
            session.commands.append(made[c["cls"]](c["plan"], c["values"]))
        for step in script:
            before = len(s.core.requests)
            rec = {}
            cmd = session.commands[step[1]]
            try:
                if step[0] == "set":
                    set_value(cmd, step[2], step[3])
                elif step[0] == "pack":
                    rec["ok"] = {"$b": bytes(cmd.create_datagram()).hex()}
                else:
                    value = sync_wait(cmd.execute(executer))
                    rec["ok"] = value if isinstance(value, list) else {"$obj": repr(value)[:100]}
            except Exception as e:
                rec["error"] = exc_info(e)
            rec["requests"] = s.core.requests[before:]
            rec["full"] = int(bool(executer.is_queue_full()))
            out.append(rec)
        seen = len(session.log)
        try:
            r = executer.wait()
            if not layers or layers[-1] != "sync":
                sync_wait(r)
            end = "ok"
        except Exception as e:
            end = exc_info(e)
    return {"steps": out, "log": session.log[:seen], "wait": end, "waited": [x[0] for x in session.log[seen:]]}
