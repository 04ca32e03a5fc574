from hypothesis import strategies as st
from ..core import expect, data_rec, pattern, one_request, brief
from ..gen import fills, ints, bit, nbits
from .. import spec_cdb as S

ID = "P01"
QUICK, THOROUGH = 6000, 120000
RULE = ("A case is one READ or WRITE command (6/10/12/16) with an accepted LBA, block count, block size and option bits, executed "
        "against a recording device; non-trivial when LBA and block count are non-zero.")

MODS = {"read": "infi.asi.cdb.read:Read%sCommand", "write": "infi.asi.cdb.write:Write%sCommand"}
# option -> attribute, per kind and form
OPTS = {
    ("read", "6"): {}, ("write", "6"): {},
    ("read", "10"): dict(fua_nv="fua_nv", fua="fua", dpo="dpo", protect="rdprotect", group="group_number"),
    ("read", "12"): dict(bit0="RelAdr", fua="fua", dpo="dpo", protect="reserved"),
    ("read", "16"): dict(fua_nv="fua_nv", fua="fua", dpo="dpo", protect="reserved", group="group_number", bit7_14="mmc4"),
    ("write", "10"): dict(fua_nv="fua_nv", fua="fua", dpo="dpo", protect="wrprotect", group="group_number"),
    ("write", "12"): dict(fua_nv="fua_nv", fua="fua", dpo="dpo", protect="wrprotect", group="group_number"),
    ("write", "16"): dict(fua_nv="fua_nv", fua="fua", dpo="dpo", protect="wrprotect", group="group_number"),
}
WIDTH = dict(protect=3, group=5)
BLOCK_SIZES = st.one_of(st.sampled_from([512, 4096, 520, 528, 4160, 1024, 2048, 8192, 1]), ints(1, 65536))


def opts(kind, form):
    names = OPTS[(kind, form)]
    fields = {n: (bit if n not in WIDTH else nbits(WIDTH[n])) for n in names}
    fields.update(naca=st.sampled_from([0, 0, 0, 1]), vendor=st.sampled_from([0, 0, 0, 1, 2, 3]))
    return st.one_of(st.fixed_dictionaries(fields), st.just({}))


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["read", "write"]))
    form = draw(st.sampled_from(["6", "10", "12", "16"]))
    lba = draw(ints(0, (1 << S.LBA_BITS[form]) - 1))
    c = dict(kind=kind, form=form, lba=lba, opts=draw(opts(kind, form)), default_bs=draw(st.booleans()))
    if kind == "read":
        c["bs"] = draw(BLOCK_SIZES)
        c["blocks"] = draw(ints(0, S.MAX_BLOCKS_READ[form]))
    else:
        # payloads are really built, so large counts use small blocks
        c["blocks"] = draw(ints(1, 256) if form == "6" else
                           st.one_of(ints(1, 40), ints(1, 65535)) if form == "10" else
                           st.one_of(ints(1, 40), ints(1, 200000)))
        limit = max(1, 400000 // c["blocks"])
        c["bs"] = draw(ints(1, limit)) if limit < 512 else draw(st.one_of(st.sampled_from([b for b in (512, 520, 1024, 4096) if b <= limit]), ints(1, min(limit, 65536))))
        c["fill"] = draw(fills)
    if c["default_bs"]:
        if kind == "write" and c["blocks"] * 512 > 1000000:
            c["default_bs"] = False
        else:
            c["bs"] = 512
    return c


def strategy():
    return case()


def fixed():
    for kind in ("read", "write"):
        for form in ("6", "10", "12", "16"):
            top = (1 << S.LBA_BITS[form]) - 1
            for lba in (0, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0x1FFFF, 0x1FFFFE, 0x1FFFFF, 0xFFFFFFFF, 0x100000000, top - 1, top):
                if lba <= top:
                    for blocks in (1, 2, 127, 128, 255):
                        yield dict(kind=kind, form=form, lba=lba, opts={}, default_bs=True, blocks=blocks, bs=512, fill=1)
            for name in OPTS[(kind, form)]:
                for v in range(1, 1 << WIDTH.get(name, 1)):
                    yield dict(kind=kind, form=form, lba=0x010203, opts={name: v}, default_bs=True, blocks=3, bs=512, fill=2)
    for blocks in (0, 1, 128, 129, 255):
        for bs in (512, 520, 4096, 1):
            yield dict(kind="read", form="6", lba=5, opts={}, default_bs=False, blocks=blocks, bs=bs)
    for blocks in (1, 255, 256):
        for bs in (512, 520, 4096):
            yield dict(kind="write", form="6", lba=5, opts={}, default_bs=False, blocks=blocks, bs=bs, fill=3)


def spec(c):
    sets = {OPTS[(c["kind"], c["form"])][k]: v for k, v in c["opts"].items() if k in OPTS[(c["kind"], c["form"])]}
    if c["opts"].get("naca") or c["opts"].get("vendor"):
        sets["control"] = {"$new": "infi.asi.cdb.control:Control", "kwargs": dict(naca=c["opts"].get("naca", 0), vendor_specific=c["opts"].get("vendor", 0))}
    second = c["blocks"] if c["kind"] == "read" else {"$fill": [c["fill"], c["blocks"] * c["bs"]]}
    args = [c["lba"], second]
    if not c["default_bs"]:
        args.append(c["bs"])
    return {"cls": MODS[c["kind"]] % c["form"], "args": args, "set": sets}


def judge(c, run):
    obs = run("execute", cmd=spec(c), replies=[{"data": "00"}])
    what = "%s(%s) lba=%#x blocks=%d bs=%d opts=%s" % (c["kind"].upper(), c["form"], c["lba"], c["blocks"], c["bs"], c["opts"])
    req = one_request(obs, what)
    expected = S.rw(S.READ if c["kind"] == "read" else S.WRITE, c["form"], c["lba"], c["blocks"], c["opts"])
    expect(req["cdb"] == expected.hex(), "%s: CDB sent %s, expected %s", what, req["cdb"], expected.hex())
    expect(req["kind"] == c["kind"], "%s: direction %s", what, req["kind"])
    if c["kind"] == "read":
        want = (c["blocks"] or (256 if c["form"] == "6" else 0)) * c["bs"]
        expect(req["len"] == want, "%s: asked for %s bytes, expected %d", what, req["len"], want)
    else:
        want = data_rec(pattern(c["fill"], c["blocks"] * c["bs"]))
        expect(req["data"] == want, "%s: payload %s, expected %s", what, brief(req["data"], 120), brief(want, 120))
    labels = [c["kind"] + c["form"]]
    if c["opts"]:
        labels.append("opts")
    if c["bs"] != 512:
        labels.append("bs!=512")
    return labels, c["lba"] > 0 and c["blocks"] > 0
