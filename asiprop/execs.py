"""Generators shared by the executer properties, and classification of outcomes."""
from hypothesis import strategies as st
from .core import expect, brief, data_rec, pattern
from .gen import raw, ints, u8, u16

SENSE_LEN = 255


def cdbs(maximum=16):
    sizes = [n for n in (6, 10, 12, 16, 32) if n <= maximum]
    return st.sampled_from(sizes + sizes[-2:]).flatmap(lambda n: raw(n)).map(lambda b: b.hex())


def sizes(top=1 << 16):
    return st.one_of(st.integers(0, 600), st.sampled_from([x for x in (0, 1, 2, 8, 36, 255, 256, 511, 512, 513, 4095, 4096, 4097, 65535, 65536, 1 << 20) if x <= top]), st.integers(0, top))


def transfer(top=1 << 16):
    return st.one_of(sizes(top).map(lambda n: {"read": n}), st.tuples(st.integers(0, 99), sizes(top)).map(lambda t: {"write": list(t)}),
                     raw(0, 64).map(lambda b: {"write": b.hex()}))


def command(ident, cdb, xfer, comp, **kw):
    return dict(xfer, id=ident, cdb=cdb, comp=comp, **kw)


def reading(cmd):
    return "read" in cmd and cmd["read"] > 0


def write_bytes(cmd):
    w = cmd["write"]
    return bytes.fromhex(w) if isinstance(w, str) else pattern(*w)


def device_data(cmd):
    """What the fake device puts in the caller's buffer, the rest of which stays zero."""
    n, comp = cmd["read"], cmd["comp"]
    if comp.get("gen"):
        return pattern(comp["gen"], n)
    d = bytes.fromhex(comp.get("data", ""))[:n]
    return d + bytes(n - len(d))


def enc_data(b):
    return None if b is None else {"$b": b.hex()}


def replies():
    return st.one_of(raw(0, 40).map(lambda b: {"data": b.hex()}), st.integers(1, 1 << 20).map(lambda g: {"gen": g}))


sense_bytes = st.one_of(
    st.tuples(st.sampled_from([0x70, 0x71, 0xf0, 0xf1]), raw(17, 40)).map(lambda t: bytes([t[0]]) + t[1]),
    st.tuples(st.sampled_from([0x72, 0x73]), raw(7, 7)).map(lambda t: bytes([t[0]]) + t[1][:6] + b"\0"),
    raw(0, 255), st.just(b""), raw(252, 255)).map(lambda b: b.hex())


def has(err, *names):
    return any(n in err["mro"] for n in names)


def sense_ok(err, sense_hex, what):
    want = bytes.fromhex(sense_hex)[:SENSE_LEN]
    got = err.get("sense_buffer")
    expect(got is not None, "%s: the check condition error carries no sense bytes: %s", what, brief(err))
    got = bytes.fromhex(got)
    n = min(len(want), len(got))
    expect(n >= min(len(want), 252) and got[:n] == want[:n] and not any(got[n:]), "%s: sense bytes %s, the device reported %s", what, got.hex(), want.hex())


def single(run, platform, cmd, opts=None):
    obs = run("history", platform=platform, steps=[{"do": "call", "cmd": cmd}], opts=opts)
    return obs, obs["events"][-1][3]


def check_sg_request(r, cmd, timeout, w):
    """One sg_io_hdr as the kernel sees it against the command that was given to the executer."""
    expect(r["interface_id"] == ord("S") and r["size"] == 88, "%s: not an sg_io_hdr v3 request", w)
    expect(r["cdb"] == cmd["cdb"], "%s: descriptor block differs", w)
    expect(r["timeout"] == (30000 if timeout is None else timeout), "%s: timeout is not the configured %s ms", w, timeout)
    expect(r["has_sense"] and r["sense_len"] >= 18, "%s: no usable sense buffer", w)
    expect(r["iovec"] == 0 and not r["flags"] & 0x10004, "%s: scatter list or no-transfer flags", w)
    if "read" in cmd:
        expect(r["dlen"] == cmd["read"], "%s: transfer length", w)
        expect(r["direction"] in ((-3, -4) if cmd["read"] else (-1, -3)), "%s: direction", w)
    else:
        data = write_bytes(cmd)
        expect(r["dlen"] == len(data), "%s: transfer length", w)
        expect(r["direction"] == -2 or not data and r["direction"] == -1, "%s: direction", w)
        expect(not data or r["data"] == data_rec(data), "%s: data handed to the device differs", w)
    expect(r["has_data"] or not r["dlen"], "%s: no data buffer", w)


def check_kind(r, cmd, w):
    """Direction, length and data of a pass-through request that names its direction."""
    if "read" in cmd:
        expect(r["dlen"] == cmd["read"], "%s: transfer length is %s", w, r["dlen"])
        expect(r["kind"] == "in" or not cmd["read"] and r["kind"] in ("out", "none"), "%s: direction is %s", w, r["kind"])
    else:
        data = write_bytes(cmd)
        expect(r["dlen"] == len(data), "%s: transfer length is %s", w, r["dlen"])
        expect(r["kind"] == "out" or not data and r["kind"] == "none", "%s: direction is %s", w, r["kind"])
        expect(not data or r["data"] == data_rec(data), "%s: data handed to the device differs", w)
    expect(r["has_data"] or not r["dlen"], "%s: no data buffer", w)


NAMES = (("AsiCheckConditionError", "cc"), ("AsiReservationConflictError", "rc"), ("AsiRequestQueueFullError", "qf"), ("AsiSCSIError", "err"), ("AsiOSError", "os"), ("OSError", "rawos"))


def system_error_ok(err, cmd, what):
    """An error of the system keeps its number."""
    c = cmd["comp"]
    want = c.get("winerr", c.get("werr", c.get("oserr")))
    for name in ("errno", "win32_errno"):
        expect(want is None or err.get(name, want) == want, "%s: the error's %s is %s, the system's was %s", what, name, err.get(name), want)


def kind_of(outcome):
    if "ok" in outcome:
        return "ok"
    for name, kind in NAMES:
        if has(outcome["error"], name):
            return kind
    return "other:" + outcome["error"]["type"]


def run_calls(run, platform, cmds, opts, check_request, allowed, returned, what):
    """A history of blocking calls on one executer: every request and every outcome is judged on its own."""
    obs = run("history", platform=platform, steps=[{"do": "call", "cmd": c} for c in cmds], opts=opts)
    kinds = []
    expect(len(obs["events"]) == len(cmds), "%s: %d outcomes", what, len(obs["events"]))
    n = 0
    for i, (cmd, ev) in enumerate(zip(cmds, obs["events"])):
        w = "%s: command %d %s" % (what, i, brief(cmd, 500))
        expect(ev[5] == 1, "%s: %d requests were sent", w, ev[5])
        r = obs["requests"][n]
        n += 1
        check_request(r, cmd, w + ", request " + brief(r, 400))
        kind = kind_of(ev[3])
        want = allowed(cmd)
        expect(kind in want, "%s: outcome %s (%s), expected %s", w, kind, brief(ev[3], 300), "/".join(sorted(want)))
        if kind == "ok":
            expect(ev[3]["ok"] in returned(cmd), "%s: returned %s, expected %s", w, brief(ev[3], 300), brief(returned(cmd)[0], 300))
        if kind == "cc":
            sense_ok(ev[3]["error"], cmd["comp"].get("sense", ""), w)
        if kind in ("os", "rawos"):
            system_error_ok(ev[3]["error"], cmd, w)
        expect(ev[4] == {"ok": 0}, "%s: afterwards is_queue_full() is %s", w, brief(ev[4]))
        kinds.append(kind)
    return kinds


def plain_result(cmd):
    return [enc_data(device_data(cmd) if reading(cmd) else None)]


def calls(one, most=4):
    """Histories of one to `most` commands drawn from `one(id)`."""
    return st.integers(1, most).flatmap(lambda n: st.tuples(*[one(i) for i in range(n)])).map(list)


PATHS = {"linux": ["/dev/sg0", "/dev/sg1", "/dev/sg27", "/dev/sda", "/dev/sdb", "/dev/sdb1", "/dev/sdaa", "/dev/dm-0", "/dev/dm-12", "/dev/mapper/mpatha", "/dev/mapper/my disk", "/dev/bsg/0:0:0:1", "/dev/sr0",
                   "/dev/st0", "/dev/nvme0n1", "/dev/disk/by-id/wwn-0x5742b0f000000101", "/dev/disk/by-path/pci-0000:00:10.0-scsi-0:0:0:0", "/dev/block/8:16", "/dev//sda", "/dev/./sdb", "/dev/mapper/../sdc", "/dev/sdd/", "/dev/SDA", "/dev/sda ", "/dev/$HOME", "/dev/~", "/dev/sd*", "/dev/%s", "/dev/sd#1"],
         "solaris": ["/dev/rdsk/c0t0d0s2", "/dev/rdsk/c4t5742B0F000000101d0s2", "/dev/dsk/c0t0d0s2", "/dev/es/ses0", "/dev/scsi/ses/c2t0d0", "/dev/vx/rdmp/disk_1", "/devices/pci@0,0/pci15ad@10/sd@0,0:c,raw"],
         "aix": ["/dev/rhdisk0", "/dev/rhdisk12", "/dev/hdisk3", "/dev/fscsi0", "/dev/scsi1", "/dev/rmt0"],
         "windows": [r"\\.\PHYSICALDRIVE0", r"\\.\PhysicalDrive12", r"\\.\Scsi2:", r"\\?\Volume{4c1b02c1-d990-11dc-99ae-806e6f6e6963}", r"\\.\E:", r"\\.\Tape0", "/dev/sda"]}


OPEN_ERRORS = [2, 5, 6, 13, 16, 19, 22, 24, 30]


def open_failed(err, path):
    """The error of a "missing" device: an operating system error which tells why."""
    code = int(path.rpartition("missing-")[2]) if "missing-" in path else 2
    return err is not None and has(err, "OSError", "AsiOSError") and code in (err.get("errno", code), err.get("win32_errno"))


def paths(name):
    """Device paths as they are named on a platform (a "missing" one cannot be opened)."""
    base = st.one_of(st.sampled_from(PATHS.get(name) or sum((PATHS[k] for k in sorted(PATHS)), [])), st.sampled_from(["a", "b", "sd c", u"d\xe9"]).map(lambda t: "/dev/asiprop-" + t))
    how = st.sampled_from(["-missing"] + ["-missing-%d" % n for n in OPEN_ERRORS])
    return st.tuples(st.integers(0, 9), base, how).map(lambda t: t[1] + t[2] if t[0] == 9 else t[1])
