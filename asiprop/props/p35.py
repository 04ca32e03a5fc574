import hashlib
from hypothesis import strategies as st
from ..core import expect, brief, pattern, data_rec
from .. import execs as X

ID = "P35"
QUICK, THOROUGH = 2400, 60000
TECHNIQUE = "stateful model-based property testing of the whole stack: command histories against a simulated disk, compared with an array"
RULE = ("A case is a history of reads, writes, write-sames, compare-and-writes, unmaps, inquiries, capacity queries and readiness checks in every command form, repeated "
        "commands and injected device failures included, executed through the Linux SG executer against a disk simulator that works from descriptor block bytes; data read, "
        "outcomes and final media must be those of the same operations on an array. Non-trivial when a read returns previously written data or a compare is decided by it.")
ASSUMPTIONS = ["The simulated disk is written from SBC-4/SPC-4; it executes every accepted command atomically."]
CDB = "infi.asi.cdb."
FAULTS = [{"status": 8}, {"status": 0x28}, {"status": 0x18}, {"host": 3}, {"status": 2, "sense": "70000600" + "00" * 3 + "0a" + "00" * 4 + "2900" + "00" * 4}, {"driver": 6}]
FORM_LBA = {6: 1 << 21, 10: 1 << 32, 12: 1 << 32, 16: 1 << 64}
FORM_N = {6: 257, 10: 1 << 16, 12: 1 << 32, 16: 1 << 32}


@st.composite
def case(draw):
    blocks = draw(st.sampled_from([300, 300, 1000, (1 << 16) + 20, (1 << 21) + 50, (1 << 32) + 300, (1 << 40) + 7, (1 << 63) + 40]))
    bs = draw(st.sampled_from([512, 512, 512, 520, 4096, 64]))
    hot = [0, 0, 1, 9, blocks - 1, blocks - 4, blocks] + [b for b in (255, 1 << 16, (1 << 21) - 2, 1 << 21, (1 << 32) - 3, 1 << 32) if b < blocks]
    home = draw(st.sampled_from(hot))
    lba = st.builds(lambda b, d: max(0, b + d), st.one_of(st.just(home), st.just(home), st.sampled_from(hot)), st.integers(0, 5))
    count = st.one_of(st.integers(0, 6), st.integers(1, 6), st.sampled_from([255, 256, 257, 290]))
    steps, live = [], []
    for i in range(draw(st.integers(2, 14))):
        kind = draw(st.sampled_from(["read", "read", "read", "write", "write", "write", "caw", "caw", "ws", "unmap", "query", "again"]))
        if kind == "again":
            if not live:
                continue
            s = dict(op="again", of=draw(st.sampled_from(live)))
        elif kind in ("read", "write"):
            s = dict(op=kind, form=draw(st.sampled_from([6, 10, 12, 16, 16])), lba=draw(lba), n=draw(count), seed=i)
        elif kind == "caw":
            s = dict(op="caw", lba=draw(lba), n=draw(st.integers(0, 5)), match=draw(st.sampled_from([1, 1, 0])), same=draw(st.sampled_from([0, 0, 1])), flip=draw(st.integers(0, 1 << 20)), seed=i)
        elif kind == "ws":
            s = dict(op="ws", form=draw(st.sampled_from([10, 16])), lba=draw(lba), n=draw(st.one_of(st.integers(0, 6), st.sampled_from([1, 2, 255, 256, 290]))), unmap=draw(st.sampled_from([0, 0, 1])), zero=draw(st.integers(0, 1)), seed=i)
        elif kind == "unmap":
            s = dict(op="unmap", ranges=draw(st.lists(st.tuples(lba, st.integers(0, 6)).map(list), max_size=4)))
        else:
            s = dict(op="query", what=draw(st.sampled_from(["tur", "inquiry", "serial", "limits", "pages", "rc10", "rc16", "luns"])))
        if draw(st.integers(0, 9)) == 0:
            s["fault"] = draw(st.sampled_from(FAULTS))
        live.append(len(steps))
        steps.append(s)
    return dict(blocks=blocks, bs=bs, ident=draw(st.text(alphabet="ABCDEFGHIJ0123456789", min_size=1, max_size=16)), steps=steps, q=draw(st.sampled_from([None, 1, 2])))


def strategy():
    return case()


def fixed():
    steps = []
    for k, form in enumerate((6, 10, 12, 16)):
        steps += [dict(op="write", form=form, lba=10 * k, n=3, seed=k)] + [dict(op="read", form=f, lba=10 * k, n=3, seed=0) for f in (6, 10, 12, 16)]
    steps += [dict(op="write", form=6, lba=0, n=256, seed=9), dict(op="read", form=6, lba=0, n=256, seed=9), dict(op="read", form=6, lba=0, n=0, seed=9), dict(op="read", form=10, lba=0, n=299, seed=9),
              dict(op="unmap", ranges=[[3, 4], [100, 50]]), dict(op="read", form=16, lba=0, n=290, seed=9)]
    steps += [dict(op="query", what=w) for w in ("tur", "inquiry", "serial", "limits", "pages", "rc10", "rc16", "luns")]
    for bs in (512, 520, 4096):
        yield dict(blocks=300, bs=bs, ident="SERIAL0123", steps=steps, q=None)


class Model(object):
    def __init__(self, c):
        self.n, self.bs = c["blocks"], c["bs"]
        self.media = {}
        self.zero = bytes(self.bs)

    def get(self, lba, n):
        return b"".join(self.media.get(lba + i, self.zero) for i in range(n))

    def put(self, lba, data):
        for i in range(len(data) // self.bs):
            self.media[lba + i] = data[i * self.bs:(i + 1) * self.bs]


def command_of(s, m, memo):
    """The build spec of a step; payloads that depend on the media are fixed when the object is built."""
    bs, kw = m.bs, {}
    if bs != 512 or s.get("seed", 0) % 2:
        kw = {"block_size": bs}
    op = s["op"]
    if op == "read":
        return {"cls": CDB + "read:Read%dCommand" % s["form"], "args": [s["lba"], s["n"]], "kwargs": kw}
    if op == "write":
        s["data"] = pattern("w%d" % s["seed"], s["n"] * bs)
        return {"cls": CDB + "write:Write%dCommand" % s["form"], "args": [s["lba"], {"$b": s["data"].hex()}], "kwargs": kw}
    if op == "caw":
        old = m.get(s["lba"], s["n"])
        if not s["match"] and old:
            k = s["flip"] % len(old)
            old = old[:k] + bytes([old[k] ^ 0x40]) + old[k + 1:]
        s["old"], s["new"] = old, old if s.get("same") else pattern("c%d" % s["seed"], s["n"] * bs)
        return {"cls": CDB + "compare_and_write:CompareAndWriteCommand", "args": [s["lba"], {"$b": (s["old"] + s["new"]).hex()}, s["n"]], "kwargs": kw}
    if op == "ws":
        s["data"] = bytes(bs) if s["zero"] else pattern("s%d" % s["seed"], bs)
        out = {"cls": CDB + "write_same:WriteSame%dCommand" % s["form"], "args": [s["lba"], {"$b": s["data"].hex()}], "kwargs": dict(kw, number_of_blocks=s["n"])}
        if s["unmap"] and s["form"] == 16:
            out["set"] = {"unmap": 1}
        return out
    if op == "unmap":
        return {"cls": CDB + "unmap:UnmapCommand", "args": [s["ranges"]]}
    w = s["what"]
    return {"tur": {"cls": CDB + "tur:TestUnitReadyCommand"}, "inquiry": {"cls": CDB + "inquiry.standard:StandardInquiryCommand"},
            "serial": {"cls": CDB + "inquiry.vpd_pages.unit_serial_number:UnitSerialNumberVPDPageCommand"}, "limits": {"cls": CDB + "inquiry.vpd_pages.block_limits:BlockLimitsPageCommand"},
            "pages": {"cls": CDB + "inquiry.vpd_pages.supported_pages:SupportedVPDPagesCommand"}, "rc10": {"cls": CDB + "read_capacity:ReadCapacity10Command"},
            "rc16": {"cls": CDB + "read_capacity:ReadCapacity16Command"}, "luns": {"cls": CDB + "report_luns:ReportLunsCommand"}}[w]


SHAPES = {"inquiry": {"t10_vendor_identification": None, "product_identification": None}, "serial": {"product_serial_number": None}, "limits": {"maximum_transfer_length": None, "maximum_compare_and_write_length": None},
          "pages": {"vpd_parameters": None}, "rc10": {"last_logical_block_address": None, "block_length_in_bytes": None}, "rc16": {"last_logical_block_address": None, "block_length_in_bytes": None},
          "luns": {"lun_list": None}}


def representable(s):
    if s["op"] in ("read", "write"):
        if s["lba"] >= FORM_LBA[s["form"]]:
            return False
        if s["op"] == "write" and s["n"] == 0:
            return None if s["form"] != 6 else False        # a write of no blocks may be refused or be a no-op
        return s["n"] < (256 if s["form"] == 6 and s["op"] == "read" else FORM_N[s["form"]])
    if s["op"] == "ws":
        return s["lba"] < FORM_LBA[s["form"]] and s["n"] < FORM_N[s["form"]]
    return True


def outcome_of(s, m, c):
    """(kind, value) of running the step on the array: ("ok", data|None) or ("cc", key, code); the model is changed."""
    op, N, bs = s["op"], m.n, m.bs
    if op == "read":
        n = 256 if s["form"] == 6 and s["n"] == 0 else s["n"]
        if s["lba"] + n > N:
            return ("cc", 5, 0x21)
        return ("data", m.get(s["lba"], n))
    if op == "write":
        if s["lba"] + s["n"] > N:
            return ("cc", 5, 0x21)
        m.put(s["lba"], s["data"])
        return ("ok", None)
    if op == "caw":
        if s["lba"] + s["n"] > N:
            return ("cc", 5, 0x21)
        if m.get(s["lba"], s["n"]) != s["old"]:
            return ("cc", 0xe, 0x1d)
        m.put(s["lba"], s["new"])
        return ("ok", None)
    if op == "ws":
        n = s["n"]
        if n == 0:
            n = N - s["lba"]
            if n > 5000:
                return ("cc", 5, 0x24)
        if n < 0 or s["lba"] + n > N:
            return ("cc", 5, 0x21)
        m.put(s["lba"], s["data"] * n)
        return ("ok", None)
    if op == "unmap":
        if any(a + n > N for a, n in s["ranges"]):
            return ("cc", 5, 0x21)
        for a, n in s["ranges"]:
            for i in range(n):
                m.media.pop(a + i, None)
        return ("ok", None)
    return ("query", {"tur": None, "inquiry": ["ASIPROP", c["ident"]], "serial": [c["ident"]], "limits": [4096, 255], "pages": [[0, 0x80, 0xb0]],
                      "rc10": [min(N - 1, 0xffffffff), m.bs], "rc16": [N - 1, m.bs], "luns": [[0]]}[s["what"]])


def judge(c, run):
    # run the model first, building each step against the media as it then is
    m = Model(c)
    specs, plan, reused = [], [], False
    steps = [dict(s) for s in c["steps"]]
    for i, s in enumerate(steps):
        if s["op"] == "again":
            of = s["of"]
            while "of" in steps[of]:
                of = steps[of]["of"]
            target = steps[of]
            spec = {"again": of}
        else:
            target = s
            spec = {"cmd": command_of(s, m, None)}
        rep = representable(target)
        if target["op"] == "query":
            spec["shape"] = SHAPES.get(target["what"])
        if s.get("fault"):
            spec["fault"] = s["fault"]
        if rep is False:
            want = ("rejected",)
        elif s.get("fault"):
            want = ("fault", s["fault"])
        else:
            want = outcome_of(target, m, c)
            reused = reused or want[0] == "data" and any(want[1]) or want[0] == "cc" and want[1] == 0xe
        specs.append(spec)
        plan.append((want, rep, target))
    obs = run("disk", blocks=c["blocks"], bs=c["bs"], ident=c["ident"], steps=specs, opts=dict(max_queue_size=c["q"]))
    what = "disk of %d blocks of %d, history %s" % (c["blocks"], c["bs"], brief(c["steps"], 900))
    for i, ((want, rep, target), o) in enumerate(zip(plan, obs["steps"])):
        w = "%s: step %d %s" % (what, i, brief({k: v for k, v in target.items() if not isinstance(v, bytes)}, 200))
        if want[0] == "rejected" or rep is None and ("build_error" in o):
            expect(("build_error" in o or "error" in o or c["steps"][i]["op"] == "again") and o["requests"] == 0, "%s: does not fit the command form, got %s", w, brief(o, 300))
            continue
        expect("build_error" not in o, "%s: construction raised %s", w, brief(o.get("build_error")))
        expect(o["requests"] == 1, "%s: %d requests", w, o["requests"])
        if want[0] == "fault":
            kinds = {2: "cc", 0x18: "rc"}.get(want[1].get("status"), "err")
            expect("error" in o and X.kind_of({"error": o["error"]}) == kinds, "%s: fault %s gave %s", w, want[1], brief(o, 300))
        elif want[0] == "cc":
            expect("error" in o and X.has(o["error"], "AsiCheckConditionError"), "%s: gave %s, expected a check condition %x/%02x", w, brief(o, 300), want[1], want[2])
            expect(o.get("sense", [None, None])[1] == want[2], "%s: sense %s, expected code %02x", w, brief(o.get("sense")), want[2])
        else:
            expect("error" not in o, "%s: raised %s", w, brief(o.get("error")))
            if want[0] == "data":
                ok = o["result"] == data_rec(want[1]) if want[1] else o["result"] in (None, data_rec(b""))
                expect(ok, "%s: read %s, the array holds %s", w, brief(o["result"], 200), brief(data_rec(want[1]), 200))
            elif want[0] == "query" and want[1] is not None:
                got = [o["result"].get(k) for k in SHAPES[target["what"]]]
                got = [g.strip() if isinstance(g, str) else g for g in got]
                expect(got == want[1], "%s: answered %s, expected %s", w, brief(got), brief(want[1]))
    media = sorted((k, v) for k, v in m.media.items() if v != m.zero)
    mine = [[k, hashlib.sha256(v).hexdigest()[:24]] for k, v in media]
    expect(obs["count"] == len(mine) and (obs["media"] == mine or isinstance(obs["media"], str)), "%s: the media differ: %s, expected %s", what, brief(obs["media"], 300), brief(mine, 300))
    return sorted({s["op"] for s in steps}), reused
