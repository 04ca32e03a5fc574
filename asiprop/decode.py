"""Judging one decoded reply against the reference decoder."""
import zlib
from .core import expect, brief, diff, shape_of, Violation
from .replies import R, BIG_DEVID


def decode_case(run, name, f, alloc_default=None):
    r = R[name]
    data = r.build(f)
    what = "%s %s (reply %s)" % (name, brief(f, 400), brief(data.hex(), 200))
    # how much of it reaches the host depends on the allocation length the command asks for
    probe = run("execute", cmd=r.cmd(f), replies=[{"raise": "AsiSCSIError"}], shape=None)
    expect(len(probe.get("requests", [])) == 1, "%s: no single request: %s", what, brief(probe))
    length = probe["requests"][0].get("len", 0)
    got = data[:length]
    if f.get("alloc") is None and name != "std_inquiry" and not name.startswith("pr_"):
        expect(len(got) == len(data), "%s: the command asks for only %d bytes of a %d byte reply", what, length, len(data))
    reply = {"data": data.hex(), "trunc": 1}
    if r.declares and zlib.crc32(data) & 3 > 1:        # in the buffer of the operating system, which is as long as was asked for
        got += (b"\0\x5a"[zlib.crc32(data) & 1:][:1] * length)[:length - len(got)]
        reply = {"data": got.hex()}
        what += " in a buffer of %d bytes" % len(got)
    want = r.expect(f, got)
    obs = run("execute", cmd=r.cmd(f), replies=[reply], shape=shape_of(want))
    expect("error" not in obs, "%s: decoding raised %s", what, brief(obs.get("error")))
    d = diff(want, obs["result"])
    expect(d is None, "%s: %s", what, d)
    return data[:length]


def reply_strategy(names):
    from hypothesis import strategies as st
    return st.sampled_from(sorted(names)).flatmap(lambda n: R[n].strategy.map(lambda f: dict(name=n, f=f)))
