"""A standard-conforming disk behind the fake SG device, and histories of commands run against it.

The simulator works from descriptor block bytes and data alone (SBC-4 / SPC-4); it is the environment, not the oracle."""
from common import *  # noqa
from common import op, enc, exc_info, build, observe, data_rec, run_command
import hashlib
import ops_exec as X


def be(b):
    return int.from_bytes(b, "big")


def sense(key, asc, ascq=0):
    return {"status": 2, "sense": bytes([0x70, 0, key, 0, 0, 0, 0, 10, 0, 0, 0, 0, asc, ascq, 0, 0, 0, 0]).hex()}


INVALID_OPCODE, INVALID_FIELD, OUT_OF_RANGE, MISCOMPARE = sense(5, 0x20), sense(5, 0x24), sense(5, 0x21), sense(0xe, 0x1d)
SHORT = dict(sense(0xb, 0x4b, 0x05))


class Disk(object):
    def __init__(self, blocks, bs, ident):
        self.blocks, self.bs, self.ident = blocks, bs, ident
        self.media = {}
        self.zero = bytes(bs)
        self.fault = None

    def get(self, lba, n):
        return b"".join(self.media.get(lba + i, self.zero) for i in range(n))

    def put(self, lba, data):
        for i in range(len(data) // self.bs):
            block = data[i * self.bs:(i + 1) * self.bs]
            if block == self.zero:
                self.media.pop(lba + i, None)
            else:
                self.media[lba + i] = block

    def __call__(self, rec, h):
        cdb = bytes.fromhex(rec["cdb"])
        out = X.peek(h["dxferp"], h["dxfer_len"]) if h["dxfer_direction"] == -2 else b""
        if self.fault is not None:
            return self.fault
        return self.run(cdb, out)

    def range(self, lba, n):
        return lba + n <= self.blocks

    def run(self, cdb, out):
        o = cdb[0]
        size = {0: 6, 1: 10, 2: 10, 4: 16, 5: 12}.get(o >> 5)
        if size != len(cdb):
            return sense(5, 0x1a)
        rw = {0x08: 6, 0x28: 10, 0xa8: 12, 0x88: 16, 0x0a: 6, 0x2a: 10, 0xaa: 12, 0x8a: 16}
        if o in rw:
            if size == 6:
                lba, n = be(cdb[1:4]) & 0x1fffff, cdb[4] or 256
            elif size == 10:
                lba, n = be(cdb[2:6]), be(cdb[7:9])
            elif size == 12:
                lba, n = be(cdb[2:6]), be(cdb[6:10])
            else:
                lba, n = be(cdb[2:10]), be(cdb[10:14])
            if size > 6 and cdb[1] >> 5:
                return INVALID_FIELD
            if not self.range(lba, n):
                return OUT_OF_RANGE
            if o & 0x0f == 8:
                return {"data": self.get(lba, n).hex()}
            if len(out) != n * self.bs:
                return SHORT
            self.put(lba, out)
            return {}
        if o == 0x89:
            lba, n = be(cdb[2:10]), cdb[13]
            if cdb[1] >> 5:
                return INVALID_FIELD
            if not self.range(lba, n):
                return OUT_OF_RANGE
            if len(out) != 2 * n * self.bs:
                return SHORT
            if self.get(lba, n) != out[:n * self.bs]:
                return MISCOMPARE
            self.put(lba, out[n * self.bs:])
            return {}
        if o in (0x41, 0x93):
            lba, n = (be(cdb[2:6]), be(cdb[7:9])) if o == 0x41 else (be(cdb[2:10]), be(cdb[10:14]))
            if cdb[1] & 0xe6:
                return INVALID_FIELD
            if n == 0:
                n = self.blocks - lba
                if n > 5000:
                    return INVALID_FIELD            # WSNZ: writing to the end of a big medium is refused
            if n < 0 or not self.range(lba, n):
                return OUT_OF_RANGE
            if len(out) != self.bs:
                return SHORT
            self.put(lba, out * n)
            return {}
        if o == 0x42:
            if be(cdb[7:9]) != len(out) or cdb[1] & 1:
                return INVALID_FIELD
            if len(out) == 0:
                return {}
            if len(out) < 8 or be(out[0:2]) != len(out) - 2 or be(out[2:4]) != len(out) - 8 or (len(out) - 8) % 16:
                return INVALID_FIELD
            ranges = [(be(out[a:a + 8]), be(out[a + 8:a + 12])) for a in range(8, len(out), 16)]
            if any(not self.range(*r) for r in ranges):
                return OUT_OF_RANGE
            for lba, n in ranges:
                for k in [k for k in self.media if lba <= k < lba + n]:
                    del self.media[k]
            return {}
        if o == 0x25:
            return {"data": (min(self.blocks - 1, 0xffffffff).to_bytes(4, "big") + self.bs.to_bytes(4, "big")).hex()}
        if o == 0x9e and cdb[1] & 0x1f == 0x10:
            return {"data": ((self.blocks - 1).to_bytes(8, "big") + self.bs.to_bytes(4, "big") + bytes([0, 3, 0xc0, 0]) + bytes(16))[:be(cdb[10:14])].hex()}
        if o == 0x00:
            return {}
        if o == 0xa0:
            return {"data": (b"\0\0\0\x08" + bytes(4) + bytes(8))[:be(cdb[6:10])].hex()}
        if o == 0x12:
            alloc = be(cdb[3:5])
            if cdb[1] & 1:
                pages = {0x00: bytes([0, 0x80, 0xb0]), 0x80: self.ident.encode().ljust(16), 0xb0: bytes([0, 255]) + (8).to_bytes(2, "big") + (4096).to_bytes(4, "big") + bytes(0x34)}
                if cdb[2] not in pages:
                    return INVALID_FIELD
                body = pages[cdb[2]]
                data = bytes([0, cdb[2]]) + len(body).to_bytes(2, "big") + body
            else:
                if cdb[2]:
                    return INVALID_FIELD
                data = bytes([0, 0, 6, 2, 31, 0, 0, 2]) + b"ASIPROP ".ljust(8) + self.ident.encode().ljust(16)[:16] + b"0001"
            return {"data": data[:alloc].hex()}
        return INVALID_OPCODE


@op
def disk(blocks, bs, ident, steps, opts=None):
    with X.Setup("linux_sg", opts or {}, ()) as s:
        d = Disk(blocks, bs, ident)
        s.dev.handler = d
        objs, out = [], []
        for st in steps:
            rec = {}
            n = len(s.core.requests)
            try:
                if "again" in st:
                    obj = objs[st["again"]]
                else:
                    obj = build(st["cmd"])
                objs.append(obj)
            except Exception as e:
                objs.append(None)
                rec["build_error"] = exc_info(e)
                obj = None
            if obj is not None:
                s.core.current = {"id": len(out), "comp": {}}
                d.fault = st.get("fault")
                try:
                    r = run_command(obj, s.executer)
                    rec["result"] = observe(r, st["shape"]) if st.get("shape") else (None if r is None else data_rec(r) if isinstance(r, (bytes, bytearray)) else {"type": type(r).__name__})
                except Exception as e:
                    rec["error"] = exc_info(e)
                    so = getattr(e, "sense_obj", None)
                    if so is not None:
                        rec["sense"] = enc([getattr(so, "sense_key", None), getattr(getattr(so, "additional_sense_code", None), "code", None)])
            rec["requests"] = len(s.core.requests) - n
            out.append(rec)
        media = [[k, hashlib.sha256(v).hexdigest()[:24]] for k, v in sorted(d.media.items())]
    return {"steps": out, "media": media if len(media) < 3000 else hashlib.sha256(repr(media).encode()).hexdigest(), "count": len(media)}
