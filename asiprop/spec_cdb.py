"""Command descriptor blocks as the SCSI standards (SPC-4, SBC-3, SES-3) lay them out - written from the standards."""


def _be(value, n):
    return value.to_bytes(n, "big")


READ = {"6": 0x08, "10": 0x28, "12": 0xA8, "16": 0x88}
WRITE = {"6": 0x0A, "10": 0x2A, "12": 0xAA, "16": 0x8A}
LBA_BITS = {"6": 21, "10": 32, "12": 32, "16": 64}
MAX_BLOCKS_READ = {"6": 255, "10": 65535, "12": 0xFFFFFFFF, "16": 0xFFFFFFFF}
MAX_BLOCKS_WRITE = {"6": 256, "10": 65535, "12": 0xFFFFFFFF, "16": 0xFFFFFFFF}


def byte1(o):
    return ((o.get("protect", 0) << 5) | (o.get("dpo", 0) << 4) | (o.get("fua", 0) << 3) | (o.get("fua_nv", 0) << 1) | o.get("bit0", 0))


def control(o):
    return (o.get("vendor", 0) << 6) | (o.get("naca", 0) << 2)


def rw(opcode_map, form, lba, blocks, o):
    op = opcode_map[form]
    if form == "6":
        return bytes([op]) + _be(lba, 3) + bytes([blocks & 0xFF, control(o)])
    if form == "10":
        return bytes([op, byte1(o)]) + _be(lba, 4) + bytes([o.get("group", 0)]) + _be(blocks, 2) + bytes([control(o)])
    if form == "12":
        return bytes([op, byte1(o)]) + _be(lba, 4) + _be(blocks, 4) + bytes([o.get("group", 0), control(o)])
    if form == "16":
        return bytes([op, byte1(o)]) + _be(lba, 8) + _be(blocks, 4) + bytes([o.get("group", 0) | (o.get("bit7_14", 0) << 7), control(o)])
    raise KeyError(form)


def write_same(form, lba, blocks, o):
    b1 = (o.get("protect", 0) << 5) | (o.get("unmap", 0) << 3) | (o.get("pbdata", 0) << 2) | (o.get("lbdata", 0) << 1)
    if form == "10":
        return bytes([0x41, b1]) + _be(lba, 4) + bytes([o.get("group", 0)]) + _be(blocks, 2) + bytes([control(o)])
    return bytes([0x93, b1]) + _be(lba, 8) + _be(blocks, 4) + bytes([o.get("group", 0), control(o)])


def compare_and_write(lba, blocks, o):
    return bytes([0x89, byte1(o)]) + _be(lba, 8) + bytes([0, 0, 0, blocks]) + bytes([o.get("group", 0), control(o)])


def unmap(param_len, o):
    return bytes([0x42, 0, 0, 0, 0, 0, o.get("group", 0)]) + _be(param_len, 2) + bytes([control(o)])


def unmap_parameters(ranges):
    body = b"".join(_be(lba, 8) + _be(n, 4) + b"\0\0\0\0" for lba, n in ranges)
    return _be(len(body) + 6, 2) + _be(len(body), 2) + b"\0\0\0\0" + body
