from hypothesis import strategies as st
from ..core import expect, brief, data_rec, pattern
from ..gen import ints, bit, uniform
from .. import spec_cdb as S

ID = "P02"
QUICK, THOROUGH = 6000, 150000
RULE = ("A case is a READ/WRITE/WRITE SAME/COMPARE AND WRITE request with LBA, count and buffer length drawn on both sides of what the "
        "command form can express; the oracle is the form's own arithmetic. Non-trivial when the request must be rejected, or lies within "
        "one percent of a limit.")

CLS = {("read", f): "infi.asi.cdb.read:Read%sCommand" % f for f in ("6", "10", "12", "16")}
CLS.update({("write", f): "infi.asi.cdb.write:Write%sCommand" % f for f in ("6", "10", "12", "16")})
CLS.update({("write_same", "10"): "infi.asi.cdb.write_same:WriteSame10Command", ("write_same", "16"): "infi.asi.cdb.write_same:WriteSame16Command",
            ("caw", "16"): "infi.asi.cdb.compare_and_write:CompareAndWriteCommand"})
COUNT_MAX = {("read", "6"): 255, ("read", "10"): 65535, ("read", "12"): 2**32 - 1, ("read", "16"): 2**32 - 1,
             ("write", "6"): 256, ("write", "10"): 65535, ("write", "12"): 2**32 - 1, ("write", "16"): 2**32 - 1,
             ("write_same", "10"): 65535, ("write_same", "16"): 2**32 - 1, ("caw", "16"): 255}


def near(limit):
    """Values on both sides of a limit (limit itself is the first value that does not fit)."""
    return st.one_of(
        st.sampled_from([-1, 0, 1, limit - 2, limit - 1, limit, limit + 1, 2 * limit - 1, 2 * limit, 2 * limit + 1, -limit, -limit + 1, 256 * limit, limit << 16, limit << 32]),
        uniform(0, limit - 1), uniform(limit, 2 * limit), uniform(limit, limit << 20), uniform(-limit, -1), ints(0, limit - 1))


@st.composite
def case(draw):
    kind, form = draw(st.sampled_from(sorted(CLS)))
    c = dict(kind=kind, form=form)
    bits = S.LBA_BITS[form]
    if draw(st.integers(0, 2)) == 0:
        c["lba"] = draw(ints(0, (1 << bits) - 1))
    else:
        c["lba"] = draw(near(1 << bits))
    top = COUNT_MAX[(kind, form)]
    if draw(st.booleans()):
        c["count"] = draw(ints(1, min(top, 300)))
    else:
        c["count"] = draw(near(top + 1))
    c["bs"] = draw(st.sampled_from([512, 512, 4096, 520, 1, 3, 7, 2048, 4160, 8192, 65536]))
    c["slack"] = 0
    c["explicit_bs"] = True
    if kind == "read":
        pass
    else:
        if kind == "write":
            if c["count"] < 0:
                c["count"] = -c["count"] % 1000
            if c["count"] * c["bs"] > 300000:
                c["bs"] = 1
        if kind == "caw" and c["count"] * c["bs"] > 100000:
            c["bs"] = 16
        if c["bs"] > 1 and draw(st.integers(0, 3)) == 0:
            c["slack"] = draw(st.one_of(st.integers(1, c["bs"] - 1), st.sampled_from([c["bs"] // 2, max(1, c["bs"] - 512), min(512, c["bs"] - 1), min(4096, c["bs"] - 1)])))
    if c["bs"] == 512 and draw(st.booleans()):
        c["explicit_bs"] = False
    return c


def strategy():
    return case()


def fixed():
    for (kind, form) in sorted(CLS):
        lim = 1 << S.LBA_BITS[form]
        top = COUNT_MAX[(kind, form)]
        for lba in (-1, -lim, lim - 1, lim, lim + 5, 2 * lim, 2 * lim + 7):
            yield dict(kind=kind, form=form, lba=lba, count=2, bs=512, slack=0, explicit_bs=False)
        for count in (top, top + 1, top + 2, 2 * (top + 1), 2 * (top + 1) + 3, 3 * (top + 1) + 1):
            bs = 1
            yield dict(kind=kind, form=form, lba=7, count=count, bs=bs, slack=0, explicit_bs=True)
        if kind != "read":
            for bs in (520, 512, 4096, 3):
                for slack in (0, 1, bs - 1, bs // 2):
                    yield dict(kind=kind, form=form, lba=9, count=3, bs=bs, slack=slack, explicit_bs=True)
            # a whole number of 512-byte units that is not a whole number of blocks, and the reverse
            for bs, slack in ((4096, 512), (4096, 3584), (1024, 512), (8192, 4096), (65536, 4096), (65536, 8192), (65536, 32768), (528, 512), (1 << 20, 1 << 19)):
                yield dict(kind=kind, form=form, lba=9, count=3, bs=bs, slack=slack, explicit_bs=True)


def buflen(c):
    """Bytes in the caller's buffer."""
    if c["kind"] == "write":
        return c["count"] * c["bs"] + c["slack"]
    if c["kind"] == "write_same":
        return c["bs"] + c["slack"]
    return 2 * min(max(c["count"], 0), 300) * c["bs"] + c["slack"]


def verdict(c):
    """'accept', 'reject' or 'either'."""
    if not 0 <= c["lba"] < 1 << S.LBA_BITS[c["form"]]:
        return "reject"
    if c["slack"]:
        return "reject"
    top = COUNT_MAX[(c["kind"], c["form"])]
    if c["kind"] == "read" and c["form"] == "6" and c["count"] == 256:
        return "either"
    if not 0 <= c["count"] <= top:
        return "reject"
    return "accept" if c["count"] else "either"


def judge(c, run):
    args = [c["lba"]]
    if c["kind"] == "read":
        args.append(c["count"])
    else:
        n = buflen(c)
        args.append({"$fill": [1, n]} if n <= 2000000 else {"$huge": n})
        if c["kind"] in ("write_same", "caw"):
            args.append(c["count"])
    if c["explicit_bs"]:
        args.append(c["bs"])
    v = verdict(c)
    if v != "reject" and c["kind"] == "write" and n > 2000000:
        return ["unbuilt"], False
    obs = run("execute", cmd={"cls": CLS[(c["kind"], c["form"])], "args": args}, replies=[{"data": "00"}])
    what = "%s(%s) lba=%d count=%d bs=%d slack=%d" % (c["kind"], c["form"], c["lba"], c["count"], c["bs"], c["slack"])
    failed = "build_error" in obs or "error" in obs
    if v == "reject" or (v == "either" and failed):
        expect(failed, "%s does not fit the command but no error was raised; sent %s", what, brief(obs["requests"], 200))
        expect(not obs["requests"], "%s: rejected, but a command was sent: %s", what, brief(obs["requests"], 200))
        return [v + ":" + c["kind"]], v == "reject"
    expect(not failed, "%s fits the command but was refused: %s", what, brief(obs.get("build_error") or obs.get("error")))
    expect(len(obs["requests"]) == 1, "%s: %d requests", what, len(obs["requests"]))
    req = obs["requests"][0]
    if c["kind"] == "read":
        want = S.rw(S.READ, c["form"], c["lba"], c["count"], {})
    elif c["kind"] == "write":
        want = S.rw(S.WRITE, c["form"], c["lba"], c["count"], {})
    elif c["kind"] == "write_same":
        want = S.write_same(c["form"], c["lba"], c["count"], {})
    else:
        want = S.compare_and_write(c["lba"], c["count"], {})
    expect(req["cdb"] == want.hex(), "%s: CDB %s, expected %s", what, req["cdb"], want.hex())
    if c["kind"] != "read":
        expect(req["data"] == data_rec(pattern(1, n)), "%s: the payload is not the caller's buffer", what)
    lim = 1 << S.LBA_BITS[c["form"]]
    top = COUNT_MAX[(c["kind"], c["form"])]
    return ["accept:" + c["kind"]], c["lba"] >= lim - lim // 100 - 1 or c["count"] >= top - top // 100 - 1
