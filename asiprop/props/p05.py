from hypothesis import strategies as st
from ..core import expect, brief, one_request
from ..gen import ints, bit, nbits, u8, u16, u32, u64, raw

ID = "P05"
QUICK, THOROUGH = 4000, 100000
RULE = ("A case is one PERSISTENT RESERVE IN or OUT request with generated action, type, keys, option bits and (REGISTER AND MOVE) transport "
        "identifier; non-trivial when a key or option is non-zero or the request must be refused.")
MOD = "infi.asi.cdb.persist."


def be(v, n):
    return v.to_bytes(n, "big")


@st.composite
def case(draw):
    k = draw(st.sampled_from(["in", "out", "out", "out", "move", "move", "bad_out", "bad_in"]))
    c = dict(kind=k)
    if k == "in":
        c.update(action=draw(st.integers(0, 3)), alloc=draw(st.one_of(ints(8, 65535), st.sampled_from([8, 9, 255, 256, 520]))))
    elif k == "bad_in":
        c.update(action=draw(st.integers(0, 3)), alloc=draw(st.integers(-3, 7)))
    elif k in ("out", "move"):
        c.update(action=7 if k == "move" else draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 8])), key=draw(u64), sakey=draw(u64))
        c["type"] = draw(st.one_of(st.sampled_from([1, 3, 5, 6, 7, 8]), nbits(4)))
        c["aptpl"] = draw(bit)
        if k == "out":
            c.update(all_tg_pt=draw(bit), spec_i_pt=draw(bit))
        else:
            c.update(unreg=draw(bit), rtpi=draw(u16), proto=draw(nbits(4)), fmt=draw(nbits(2)),
                     specific=draw(st.one_of(raw(23), raw(23), raw(1, 300))).hex())
    else:
        c.update(action=draw(st.one_of(st.sampled_from([9, 10, 31, 0x0f, 0x10, 0x18, 100, -1]), st.integers(9, 255))), key=draw(u64), sakey=draw(u64))
    c["omit"] = draw(st.lists(st.sampled_from(["key", "sakey", "type", "aptpl", "all_tg_pt", "spec_i_pt", "unreg", "rtpi", "alloc"]), max_size=3))
    return c


def strategy():
    return case()


def fixed():
    for action in (0, 1, 2, 3, 4, 5, 6, 8):
        for t in (1, 3, 5, 6, 7, 8):
            yield dict(kind="out", action=action, key=0x0102030405060708, sakey=0x1112131415161718, type=t, aptpl=0, all_tg_pt=0, spec_i_pt=0, omit=[])
        for bits in range(8):
            yield dict(kind="out", action=action, key=1, sakey=2, type=1, aptpl=bits & 1, all_tg_pt=bits >> 1 & 1, spec_i_pt=bits >> 2, omit=[])
    for proto in range(16):
        for fmt in range(4):
            yield dict(kind="move", action=7, key=3, sakey=4, type=5, aptpl=fmt & 1, unreg=fmt >> 1, rtpi=0x1234, proto=proto, fmt=fmt,
                       specific=bytes(range(23)).hex(), omit=[])
    for action in range(4):
        for alloc in (8, 255, 256, 8192, 65535):
            yield dict(kind="in", action=action, alloc=alloc, omit=[])
        for alloc in range(0, 8):
            yield dict(kind="bad_in", action=action, alloc=alloc, omit=[])
    for action in range(9, 256):
        yield dict(kind="bad_out", action=action, key=1, sakey=2, omit=[])


DEFAULTS = dict(key=0, sakey=0, type=1, aptpl=0, all_tg_pt=0, spec_i_pt=0, unreg=0, rtpi=0)
KW = dict(key="reservation_key", sakey="service_action_reservation_key", type="pr_type", aptpl="activate_persist_through_power_loss",
          all_tg_pt="all_target_ports", spec_i_pt="specify_initiator_ports", unreg="unregister", rtpi="relative_target_port_identifier")


def judge(c, run):
    k = c["kind"]
    what = brief(c, 400)
    if k in ("in", "bad_in"):
        s = {"cls": MOD + "input:PersistentReserveInCommand", "kwargs": dict(service_action=c["action"])}
        omitted = k == "in" and "alloc" in c["omit"]
        if not omitted:
            s["kwargs"]["allocation_length"] = c["alloc"]
        obs = run("execute", cmd=s, replies=[{"raise": "AsiSCSIError"}])
        if k == "bad_in":
            expect("build_error" in obs or not obs["requests"], "%s: sent %s", what, brief(obs["requests"]))
            expect("build_error" in obs or obs.get("error", {}).get("type") != "AsiSCSIError", "%s accepted", what)
            return ["in:rejected"], True
        expect("build_error" not in obs, "%s: %s", what, brief(obs.get("build_error")))
        expect(len(obs["requests"]) == 1, "%s: %d requests", what, len(obs["requests"]))
        req = obs["requests"][0]
        alloc = req.get("len", 0) if omitted else c["alloc"]
        want = bytes([0x5E, c["action"], 0, 0, 0, 0, 0]) + be(alloc, 2) + b"\0"
        expect(req["kind"] == "read" and req["cdb"] == want.hex() and req["len"] == alloc, "%s: sent %s, expected %s", what, brief(req), want.hex())
        return ["in:%d" % c["action"]], True
    eff = dict(DEFAULTS)
    kwargs = dict(service_action=c["action"])
    for n in DEFAULTS:
        if n in c and n not in c["omit"]:
            eff[n] = c[n]
            kwargs[KW[n]] = c[n]
    if k == "move":
        kwargs["transport_id"] = {"$new": MOD + "transport:TransportId", "kwargs": dict(protocol_identifier=c["proto"], format_code=c["fmt"],
                                                                                       specific_data={"$b": c["specific"]})}
    obs = run("execute", cmd={"cls": MOD + "output:PersistentReserveOutCommand", "kwargs": kwargs}, replies=[{"data": None}])
    if k == "bad_out":
        expect("build_error" in obs or "error" in obs, "%s: an unknown service action was accepted: %s", what, brief(obs["requests"]))
        expect(not obs["requests"], "%s: rejected but sent %s", what, brief(obs["requests"]))
        return ["out:rejected"], True
    req = one_request(obs, what)
    if k == "out":
        params = be(eff["key"], 8) + be(eff["sakey"], 8) + bytes(4) + bytes([eff["aptpl"] | eff["all_tg_pt"] << 2 | eff["spec_i_pt"] << 3, 0, 0, 0])
    else:
        tid = bytes([c["proto"] | c["fmt"] << 6]) + bytes.fromhex(c["specific"])
        params = be(eff["key"], 8) + be(eff["sakey"], 8) + bytes([0, eff["aptpl"] | eff["unreg"] << 1]) + be(eff["rtpi"], 2) + be(len(tid), 4) + tid
    want = bytes([0x5F, c["action"], eff["type"], 0, 0]) + be(len(params), 4) + b"\0"
    expect(req["kind"] == "write", "%s: direction %s", what, req["kind"])
    expect(req["cdb"] == want.hex(), "%s: CDB %s, expected %s", what, req["cdb"], want.hex())
    expect(req["data"] == {"len": len(params), "hex": params.hex()}, "%s: parameters %s, expected %s", what, req["data"], params.hex())
    return ["out:%d" % c["action"]], bool(eff["key"] or eff["sakey"] or eff["aptpl"])
