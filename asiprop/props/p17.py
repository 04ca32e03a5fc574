from hypothesis import strategies as st
from ..core import expect, brief, diff, shape_of
from ..gen import u8, u32
from ..replies import R, page_bytes, hexed
from .. import ses
from .p15 import conf_of

ID = "P17"
QUICK, THOROUGH = 6000, 120000
RULE = ("A case is a well-formed reply of any command whose reply carries its own length (21 kinds), followed by generated residue up to the allocation length, as the operating "
        "systems return it; the decoded result must be the one the reference decoder gives for the declared part. Non-trivial when non-zero residue follows the reply.")
NAMES = sorted(n for n, r in R.items() if r.declares)


def strategy():
    pad = hexed(st.one_of(st.sampled_from([b"\xff", b"\x01", b"\x00\x00\x00\x04", b"\x01\x03\x00\x08\x60", b"\x00"]), page_bytes(1, 40)))
    plain = st.sampled_from(NAMES).flatmap(lambda n: st.fixed_dictionaries(dict(name=st.just(n), f=R[n].strategy, pad=pad)))
    conf = st.lists(st.tuples(ses.etype, st.integers(0, 4)), min_size=0, max_size=4).map(conf_of)
    status = st.fixed_dictionaries(dict(name=st.just("ses_status"), pad=pad, f=st.fixed_dictionaries(dict(conf=conf, b1=u8, gen=u32, status=hexed(page_bytes(4, 40))))))
    desc = st.fixed_dictionaries(dict(name=st.just("ses_desc"), pad=pad, f=st.fixed_dictionaries(dict(conf=conf, b1=u8, gen=u32, rsvd=st.just(0), texts=st.lists(hexed(page_bytes(0, 20)), min_size=1, max_size=5)))))
    return st.integers(0, 11).flatmap(lambda k: status if k == 0 else desc if k == 1 else plain)


def pad_to(data, length, pad):
    unit = bytes.fromhex(pad)
    return data + (unit * ((length - len(data)) // len(unit) + 1))[:max(0, length - len(data))]


def judge(c, run):
    name, f, pad = c["name"], c["f"], c["pad"]
    if name in ("ses_status", "ses_desc"):
        build, exp, code = (ses.status_build, ses.status_expect, 2) if name == "ses_status" else (ses.descriptor_build, ses.descriptor_expect, 7)
        data = build(f)
        want = exp(f)
        full = pad_to(data, len(data) + 4000, pad)
        what = "%s %s + residue %s" % (name, brief(data.hex(), 200), pad)
        obs = run("ses_read", conf=pad_to(ses.conf_build(f["conf"]), 9000, pad).hex(), cmd=code, data=full.hex(), shape=shape_of(want))
        expect("conf_error" not in obs, "%s: the configuration page is refused: %s", what, brief(obs.get("conf_error")))
    else:
        r = R[name]
        data = r.build(f)
        probe = run("execute", cmd=r.cmd(f), replies=[{"raise": "AsiSCSIError"}], shape=None)
        length = probe["requests"][0].get("len", 0)
        full = pad_to(data[:length], length, pad)
        what = "%s reply %s + residue %s up to %d bytes" % (name, brief(data.hex(), 300), pad, length)
        want = r.expect(f, full)
        obs = run("execute", cmd=r.cmd(f), replies=[{"data": full.hex()}], shape=shape_of(want))
    expect("error" not in obs, "%s: decoding raised %s", what, brief(obs.get("error")))
    d = diff(want, obs["result"])
    expect(d is None, "%s: %s", what, d)
    return [name], len(full) > len(data) and any(bytes.fromhex(pad))
