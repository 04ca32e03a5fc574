from hypothesis import strategies as st
from ..core import expect, brief, data_rec, pattern, one_request
from ..gen import fills, ints, bit, nbits, u64, u32
from .. import spec_cdb as S

ID = "P03"
QUICK, THOROUGH = 4000, 100000
RULE = ("A case is one WRITE SAME(10/16), COMPARE AND WRITE or UNMAP request with its options and payload; non-trivial when the LBA (or "
        "the range list) is non-empty and not zero.")
OPTS = {"ws10": dict(lbdata="lbdata", pbdata="pbdata", protect="wrprotect", group="group_number"),
        "ws16": dict(lbdata="lbdata", pbdata="pbdata", unmap="unmap", protect="wrprotect", group="group_number"),
        "caw": dict(fua_nv="fua_nv", fua="fua", dpo="dpo", protect="wrprotect", group="group_number"),
        "unmap": dict(group="GROUP_NUMBER")}
CLS = {"ws10": "infi.asi.cdb.write_same:WriteSame10Command", "ws16": "infi.asi.cdb.write_same:WriteSame16Command",
       "caw": "infi.asi.cdb.compare_and_write:CompareAndWriteCommand", "unmap": "infi.asi.cdb.unmap:UnmapCommand"}
WIDTH = dict(protect=3, group=5)


@st.composite
def case(draw):
    kind = draw(st.sampled_from(sorted(OPTS)))
    c = dict(kind=kind)
    f = {n: (nbits(WIDTH[n]) if n in WIDTH else bit) for n in OPTS[kind]}
    f.update(naca=st.sampled_from([0, 0, 0, 1]), vendor=st.sampled_from([0, 0, 0, 1, 2, 3]))
    c["opts"] = draw(st.one_of(st.fixed_dictionaries(f), st.just({})))
    if kind == "unmap":
        n = draw(st.one_of(st.integers(0, 8), st.integers(0, 60), st.sampled_from([15, 16, 17, 255, 256, 257, 1000, 4094, 4095, 4096, 4097, 8192])))
        if n <= 60:
            c["ranges"] = draw(st.lists(st.tuples(u64, u32).map(list), min_size=n, max_size=n))
        else:
            a, b = draw(u64), draw(u32)
            c["ranges_gen"] = [n, a, b]
    else:
        c["lba"] = draw(ints(0, 0xFFFFFFFF if kind == "ws10" else (1 << 64) - 1))
        c["blocks"] = draw(ints(0, 65535) if kind == "ws10" else ints(0, 0xFFFFFFFF) if kind == "ws16" else ints(0, 255))
        c["bs"] = draw(st.one_of(st.sampled_from([512, 520, 4096, 1024]), ints(1, 9000)))
        units = draw(st.integers(1, 3)) if kind != "caw" else min(2 * c["blocks"], 600) if draw(st.integers(0, 4)) else draw(st.integers(0, 12))
        if units * c["bs"] > 300000:
            c["bs"] = 512
        c["units"] = units
        c["explicit_bs"] = c["bs"] != 512 or draw(st.booleans())
        c["fill"] = draw(fills)
    return c


def strategy():
    return case()


def fixed():
    for kind in sorted(OPTS):
        for name in sorted(OPTS[kind]):
            for v in range(1, 1 << WIDTH.get(name, 1)):
                c = dict(kind=kind, opts={name: v})
                if kind == "unmap":
                    c["ranges"] = [[1, 2]]
                else:
                    c.update(lba=0x01020304, blocks=5, bs=512, units=10 if kind == "caw" else 1, explicit_bs=False, fill=7)
                yield c
    for n in (4094, 4095, 4096, 4097, 8191, 8192):
        yield dict(kind="unmap", opts={}, ranges_gen=[n, 5, 6])
    yield dict(kind="unmap", opts={}, ranges=[], default=True)
    for n in range(0, 6):
        yield dict(kind="unmap", opts={}, ranges=[[(1 << 64) - 1 - i, 0xFFFFFFFF - i] for i in range(n)])


def ranges(c):
    if "ranges" in c:
        return [tuple(r) for r in c["ranges"]]
    n, a, b = c["ranges_gen"]
    return [((a + i * 0x10001) % (1 << 64), (b + i) % (1 << 32)) for i in range(n)]


def judge(c, run):
    kind = c["kind"]
    sets = {OPTS[kind][k]: v for k, v in c["opts"].items() if k in OPTS[kind]}
    if c["opts"].get("naca") or c["opts"].get("vendor"):
        sets["control"] = {"$new": "infi.asi.cdb.control:Control", "kwargs": dict(naca=c["opts"].get("naca", 0), vendor_specific=c["opts"].get("vendor", 0))}
    if kind == "unmap":
        rs = ranges(c)
        args = [[list(r) for r in rs]]
        if len(rs) > 4095:      # the list does not fit its own length fields
            obs = run("execute", cmd={"cls": CLS[kind], "args": [[list(r) for r in rs]], "set": sets}, replies=[{"data": None}])
            expect("build_error" in obs or "error" in obs, "UNMAP of %d ranges was sent although its lengths cannot be expressed: %s", len(rs), brief(obs["requests"], 200))
            expect(not obs["requests"], "UNMAP of %d ranges failed but was sent", len(rs))
            return ["unmap:too-long"], True
        if c.get("default"):
            args = []
        payload = S.unmap_parameters(rs)
        want = S.unmap(len(payload), c["opts"])
        nontrivial = any(a and b for a, b in rs)
    else:
        size = c["units"] * c["bs"]
        payload = pattern(c["fill"], size)
        args = [c["lba"], {"$fill": [c["fill"], size]}, c["blocks"]]
        if c["explicit_bs"]:
            args.append(c["bs"])
        want = S.write_same(kind[2:], c["lba"], c["blocks"], c["opts"]) if kind != "caw" else S.compare_and_write(c["lba"], c["blocks"], c["opts"])
        nontrivial = c["lba"] > 0 and c["blocks"] > 0
    what = "%s %s" % (kind, brief(c, 300))
    obs = run("execute", cmd={"cls": CLS[kind], "args": args, "set": sets}, replies=[{"data": None}])
    if kind == "caw" and c["units"] != 2 * c["blocks"] and ("build_error" in obs or "error" in obs):     # not two blocks for each: may be refused, may not be altered
        expect(not obs["requests"], "%s: failed with %s but was sent", what, brief(obs, 200))
        return [kind + ":refused"], False
    req = one_request(obs, what)
    expect(req["cdb"] == want.hex(), "%s: CDB %s, expected %s", what, req["cdb"], want.hex())
    expect(req["kind"] == "write", "%s: direction %s", what, req["kind"])
    expect(req["data"] == data_rec(payload), "%s: payload %s, expected %s", what, brief(req["data"], 300), brief(data_rec(payload), 300))
    return [kind] + (["opts"] if c["opts"] else []), nontrivial
