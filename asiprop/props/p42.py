from hypothesis import strategies as st
from ..core import expect, brief
from ..gen import ints, u8, raw
from .. import execs as X
from . import p22, p26, p27, p28, p29
from .p23 import SENSES

ID = "P42"
QUICK, THOROUGH = 3000, 60000
TECHNIQUE = "stateful property-based testing: generated command classes and executer wrappers over fake devices of every platform, against a reference packer and an interpreter of the wrappers"
RULE = ("A case defines one to three command classes (with instruct fields or as placed buffers), builds commands of them, stacks up to three wrappers on a platform's executer and runs a script that changes, packs and "
        "executes the commands; every request, result and error is predicted by a reference packer and an interpreter. Non-trivial when a wrapper, a failing request or a second command of one class is involved.")
PLATFORMS = ["linux_sg", "linux_ioctl", "solaris", "aix", "aix_libc", "windows", "windows_async"]
LAYERS = ["forward", "log", "retry", "mask", "sync"]
BAD = {"linux": [{"status": 8}, {"status": 0x28}], "solaris": [{"status": 8}, {"reason": 2}], "aix": [{"validity": 1, "status": 8, "errno_with_status": 5}, {"validity": 2, "adapter": 3, "errno_with_status": 5}],
       "windows": [{"status": 8}, {"winerr": 31}]}


def check_condition(platform, sense):
    return dict(sense=sense, **({"validity": 1, "status": 2, "errno_with_status": 5} if platform.startswith("aix") else {"status": 2}))


def comps(platform):
    bad = st.one_of(st.sampled_from(BAD[platform.split("_")[0]]), X.sense_bytes.map(lambda s: check_condition(platform, s)))
    good = st.integers(1, 999).map(lambda g: {"gen": g})
    return st.one_of(good, good, good, bad)


@st.composite
def class_spec(draw, k):
    size = draw(st.sampled_from([6, 10, 12, 16]))
    style = draw(st.sampled_from(["struct", "buffer"]))
    control = draw(st.sampled_from([None, "default", "default", "pack"] if style == "buffer" else [None, "default", "default"]))
    left = size - 1 - bool(control)
    fields = []
    while left:
        name = "f%d" % len(fields)
        kind = draw(st.sampled_from(["int", "int", "int", "bits", "bits", "pad", "raw", "nested" if style == "buffer" else "int"]))
        if kind == "int":
            sizes = [n for n in (1, 2, 4, 8) if n <= left]
            n = draw(st.sampled_from(sizes))
            f = dict(kind=kind, name=name, size=n, le=int(style == "buffer" and draw(st.integers(0, 3)) == 0), default=draw(st.one_of(st.none(), ints(0, 256 ** n - 1))))
        elif kind == "bits":
            parts, low = [], 0
            while low < 8:
                w = draw(st.integers(1, 8 - low))
                pname = draw(st.sampled_from([None, name + "_%d" % low, name + "_%d" % low]))
                flag = int(style == "struct" and pname is not None and w == 1 and draw(st.booleans()))
                parts.append(dict(name=pname, width=w, flag=flag, default=None if pname is None else draw(st.one_of(st.none(), ints(0, 2 ** w - 1)))))
                low += w
            n, f = 1, dict(kind=kind, name=name, size=1, parts=parts)
        else:
            n = (draw(st.sampled_from([s for s in (2, 3, 5, 9) if s <= left] or [1])) if kind == "nested" else draw(st.integers(1, left)))
            if kind == "nested" and left < 2:
                continue
            f = dict(kind=kind, name=name, size=n)
            if kind == "nested":
                f["values"] = dict(low=draw(ints(0, 15)), high=draw(ints(0, 15)), rest=draw(ints(0, 256 ** (n - 1) - 1)))
        fields.append(f)
        left -= n
    if style == "buffer" and fields and fields[-1]["kind"] == "pad" and not control:        # a buffer is as long as its fields
        fields[-1]["kind"] = "raw"
    if style == "buffer" and fields and fields[-1]["kind"] == "bits" and not control and fields[-1]["parts"][-1]["name"] is None:
        fields[-1]["parts"][-1].update(name=fields[-1]["name"] + "_z", default=0)
    if style == "buffer":       # infi.instruct repeats the bits of a part-filled last byte in the bytes skipped after it
        for f, after in zip(fields, fields[1:]):
            skips = after["kind"] == "pad" or (after["kind"] == "bits" and not any(p["name"] for p in after["parts"]))
            if skips and f["kind"] == "bits" and any(p["name"] for p in f["parts"]) and f["parts"][-1]["name"] is None:
                f["parts"][-1].update(name=f["name"] + "_z", default=0)
    return dict(name="User%dCommand" % k, style=style, opcode=draw(st.one_of(u8, st.sampled_from([0xc0, 0xff, 0x12, 0x28]))), fields=fields, control=control)


def settable(spec):
    """name -> strategy of its values"""
    out = {}
    for f in spec["fields"]:
        if f["kind"] == "int":
            out[f["name"]] = ints(0, 256 ** f["size"] - 1)
        elif f["kind"] == "bits":
            for p in f["parts"]:
                if p["name"]:
                    out[p["name"]] = ints(0, 2 ** p["width"] - 1)
        elif f["kind"] == "raw":
            out[f["name"]] = raw(f["size"]).map(lambda b: {"$b": b.hex()})
        elif f["kind"] == "nested":
            out[f["name"] + ".low"] = out[f["name"] + ".high"] = ints(0, 15)
            out[f["name"] + ".rest"] = ints(0, 256 ** (f["size"] - 1) - 1)
    if spec["control"] == "default":
        out["control.naca"] = st.integers(0, 1)
        out["control.vendor_specific"] = st.integers(0, 3)
    return out


def defaults(spec):
    v = {"control.naca": 0, "control.vendor_specific": 0}
    for f in spec["fields"]:
        if f["kind"] == "int":
            v[f["name"]] = f["default"]
        elif f["kind"] == "bits":
            v.update((p["name"], p["default"]) for p in f["parts"])
        elif f["kind"] == "raw":
            v[f["name"]] = None
        elif f["kind"] == "nested":
            v.update((f["name"] + "." + k, x) for k, x in f["values"].items())
    return v


def pack(spec, v):
    out = bytes([spec["opcode"]])
    for f in spec["fields"]:
        n = f["size"]
        if f["kind"] == "int":
            out += v[f["name"]].to_bytes(n, "little" if f["le"] else "big")
        elif f["kind"] == "bits":
            b = low = 0
            for p in f["parts"]:
                if p["name"]:
                    b |= v[p["name"]] << low
                low += p["width"]
            out += bytes([b])
        elif f["kind"] == "pad":
            out += bytes(n)
        elif f["kind"] == "raw":
            out += bytes.fromhex(v[f["name"]]["$b"])
        else:
            out += bytes([v[f["name"] + ".low"] | v[f["name"] + ".high"] << 4]) + v[f["name"] + ".rest"].to_bytes(n - 1, "big")
    if spec["control"]:
        out += bytes([v["control.vendor_specific"] << 6 | v["control.naca"] << 2])
    return out


OWN = st.sampled_from([0, 0, 0, 1])     # the request is of a class the user derived from the read or write request


@st.composite
def case(draw):
    platform = draw(st.sampled_from(PLATFORMS))
    classes = [draw(class_spec(k)) for k in range(draw(st.integers(1, 3)))]
    layers = draw(st.lists(st.sampled_from(LAYERS), max_size=3).filter(lambda x: x.count("sync") < 2))        # sync_call takes a coroutine, so not another sync_call
    ids = iter(range(1, 1000))
    commands = []

    def change(spec):
        names = settable(spec)
        if not names:
            return None
        name = draw(st.sampled_from(sorted(names)))
        return name, draw(names[name])
    for k in range(draw(st.integers(1, 4))):
        c = draw(st.integers(0, len(classes) - 1))
        spec = classes[c]
        names, base = settable(spec), defaults(spec)
        values = {n: draw(s) for n, s in names.items() if base[n] is None or draw(st.integers(0, 2)) == 0}
        plan = []
        for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
            do = draw(st.sampled_from(["io", "io", "io", "sub", "set", "post"]))
            if do == "sub" and k:
                plan.append(dict(do="sub", cmd=draw(st.integers(0, k - 1)), catch=int(draw(st.booleans()))))
            elif do == "post":
                plan.append(dict(do="post", items=[dict(draw(X.transfer(600)), own=draw(OWN), id=next(ids), comps=[draw(comps(platform).filter(lambda c: "winerr" not in c))], silent=int(draw(st.integers(0, 4)) == 0))
                                                   for _ in range(draw(st.integers(1, 3)))]))
            elif do == "set" and names:
                n, v = change(spec)
                plan.append(dict(do="set", name=n, value=v))
            else:
                plan.append(dict(draw(X.transfer(2000)), own=draw(OWN), do="io", id=next(ids), comps=draw(st.lists(comps(platform), min_size=1, max_size=5)), catch=int(draw(st.booleans()))))
        commands.append(dict(cls=c, values=values, plan=plan))
    script = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, len(commands) - 1))
        do = draw(st.sampled_from(["set", "pack", "exec", "exec"]))
        new = change(classes[commands[k]["cls"]]) if do == "set" else None
        script.append(["set", k, new[0], new[1]] if new else [do if do != "set" else "exec", k])
    return dict(platform=platform, classes=classes, commands=commands, layers=layers, script=script)


def strategy():
    return case()


def fixed():
    fields = [dict(kind="bits", name="b", size=1, parts=[dict(name="b_0", width=1, flag=0, default=1), dict(name=None, width=2, flag=0, default=None), dict(name="b_3", width=5, flag=0, default=None)]),
              dict(kind="int", name="lba", size=4, le=0, default=None), dict(kind="int", name="n", size=2, le=0, default=7)]
    for p in PLATFORMS:
        for style in ("struct", "buffer"):
            for layers in [[]] + [[a] for a in LAYERS] + [[a, b] for a in LAYERS for b in LAYERS if a + b != "syncsync"]:
                cls = dict(name="UserCommand", style=style, opcode=0xc3, fields=fields, control="default")
                bad = check_condition(p, SENSES[1])
                plan = [dict(do="io", id=1, read=40, comps=[bad, {"gen": 5}], catch=1), dict(do="set", name="lba", value=0x01020304), dict(do="io", id=2, write="0102", comps=[{"gen": 1}], catch=0),
                        dict(do="io", id=3, read=8, comps=[BAD[p.split("_")[0]][0]] * 5, catch=0)]
                if len(layers) == 1:
                    plan = [dict(x, own=1) if x["do"] == "io" else x for x in plan]
                two = dict(cls=0, values={"b_3": 3, "lba": 1}, plan=plan[:1])
                yield dict(platform=p, classes=[cls], layers=layers, commands=[dict(cls=0, values={"b_3": 1, "lba": 2}, plan=plan), two, dict(two, plan=[dict(do="sub", cmd=0, catch=1), dict(do="sub", cmd=1, catch=0)])],
                           script=[["set", 0, "control.naca", 1], ["exec", 1], ["exec", 0], ["exec", 2], ["set", 0, "control.vendor_specific", 2], ["pack", 1], ["exec", 1]])


def request_checker(platform):
    if platform == "linux_sg":
        return lambda r, cmd, w: X.check_sg_request(r, cmd, None, w)
    return {"linux_ioctl": p26, "solaris": p27, "aix": p28, "aix_libc": p28, "windows": p29, "windows_async": p29}[platform].request_check(dict(timeout=None, platform=platform))


class Model:
    """Interprets the commands: which requests reach the device, and what comes back."""

    def __init__(self, c):
        self.c = c
        self.values = [dict(defaults(c["classes"][m["cls"]]), **m["values"]) for m in c["commands"]]
        self.requests, self.log = [], []
        self.failed = False

    def datagram(self, k):
        return pack(self.c["classes"][self.c["commands"][k]["cls"]], self.values[k])

    def device(self, step, cdb, state):
        i = min(state["at"], len(step["comps"]) - 1)
        comp = step["comps"][i]
        cmd = {n: step[n] for n in ("id", "read", "write") if n in step}
        cmd.update(cdb=cdb.hex(), comp=comp)
        self.requests.append(cmd)
        if "gen" in comp:
            return "ok", X.plain_result(cmd)[0]
        self.failed = True
        return "error", comp

    def layer(self, n, step, cdb, state):
        if n == 0:
            return self.device(step, cdb, state)
        kind = self.c["layers"][n - 1]
        if kind == "log":
            self.log.append(["in", 1])
        out = self.layer(n - 1, step, cdb, state)
        if kind == "log":
            self.log.append(["out", out[1]] if out[0] == "ok" else ["raised", None])
        if kind == "retry" and out[0] == "error":
            state["at"] += 1
            out = self.layer(n - 1, step, cdb, state)
        if kind == "mask" and out[0] == "error":
            out = "ok", X.enc_data(b"masked")
        return out

    def passing(self, args):
        logs = self.c["layers"].count("log")
        self.log += [["in", args]] * logs + [["out", None]] * logs

    def execute(self, k):
        results = []
        for step in self.c["commands"][k]["plan"]:
            if step["do"] == "post":
                answers = []
                for one in step["items"]:
                    kind, out = self.device(one, self.datagram(k), {"at": 0})
                    self.passing(2)
                    if not one["silent"]:
                        answers.append([one["id"], "ok" if kind == "ok" else "caught", out])
                self.passing(0)
                results.append(["posted", answers])
                continue
            if step["do"] == "set":
                self.values[k][step["name"]] = step["value"]
                continue
            if step["do"] == "sub":
                kind, out = self.execute(step["cmd"])
                label = "sub"
            else:
                kind, out = self.layer(len(self.c["layers"]), step, self.datagram(k), {"at": 0})
                label = "got"
            if kind == "ok":
                results.append([label, out])
            elif step["catch"]:
                results.append(["caught", out])
            else:
                return "error", out
        return "ok", results


def check_error(err, comp, w):
    if comp.get("status") == 2:
        expect(X.has(err, "AsiCheckConditionError"), "%s: %s instead of a check condition", w, brief(err, 300))
        X.sense_ok(err, comp["sense"], w)
    else:
        expect(X.has(err, "AsiSCSIError", "AsiOSError") and not X.has(err, "AsiCheckConditionError"), "%s: %s for %s", w, brief(err, 300), comp)


def check_value(got, want, w):
    if isinstance(want, list):
        expect(isinstance(got, list) and len(got) == len(want) and all(isinstance(g, list) and len(g) == 2 for g in got), "%s: result %s, expected %s", w, brief(got, 300), brief(want, 300))
        for g, e in zip(got, want):
            expect(g[0] == e[0], "%s: result %s, expected %s", w, brief(got, 300), brief(want, 300))
            if e[0] == "caught":
                check_error(g[1], e[1], w)
            elif e[0] == "posted":
                expect([a[:2] for a in g[1]] == [a[:2] for a in e[1]], "%s: callbacks %s, expected %s", w, brief(g[1], 300), brief(e[1], 300))
                for a, b in zip(g[1], e[1]):
                    if b[1] == "caught":
                        check_error(a[2], b[2], w)
                    else:
                        expect(a[2] == b[2], "%s: callback of %d got %s, expected %s", w, a[0], brief(a[2], 300), brief(b[2], 300))
            elif e[0] == "sub":
                check_value(g[1], e[1], w)
            else:
                expect(g[1] == e[1], "%s: request gave %s, expected %s", w, brief(g[1], 300), brief(e[1], 300))


def judge(c, run):
    obs = run("custom", platform=c["platform"], classes=c["classes"], commands=c["commands"], layers=c["layers"], script=c["script"])
    what = "%s %s" % (c["platform"], brief(dict(c), 1500))
    expect("hang" not in obs, "%s did not terminate", what)
    check = request_checker(c["platform"])
    m = Model(c)
    for n, (step, rec) in enumerate(zip(c["script"], obs["steps"])):
        w = "step %d %s of %s" % (n, step, what)
        del m.requests[:]
        if step[0] == "set":
            m.values[step[1]][step[2]] = step[3]
            expect("error" not in rec, "%s: raised %s", w, brief(rec.get("error")))
        elif step[0] == "pack":
            expect(rec.get("ok") == X.enc_data(m.datagram(step[1])), "%s: packed as %s, expected %s", w, brief(rec, 300), m.datagram(step[1]).hex())
        else:
            kind, out = m.execute(step[1])
            if kind == "ok":
                expect("ok" in rec, "%s: raised %s", w, brief(rec.get("error"), 300))
                check_value(rec["ok"], out, w)
            else:
                expect("error" in rec, "%s: gave %s instead of an error", w, brief(rec, 300))
                check_error(rec["error"], out, w)
        expect([r["id"] for r in rec["requests"]] == [q["id"] for q in m.requests], "%s: requests %s, expected %s", w, [r["id"] for r in rec["requests"]], [q["id"] for q in m.requests])
        for r, q in zip(rec["requests"], m.requests):
            check(r, q, "%s: request %s for %s" % (w, brief(r, 300), brief(q, 300)))
        expect(rec["full"] == 0, "%s: the queue is full afterwards", w)
    log = [[a, b if a != "raised" else None] for a, b in obs["log"]]
    expect(log == m.log, "%s: the logging wrapper saw %s, expected %s", what, brief(log, 500), brief(m.log, 500))
    expect(obs["wait"] == "ok", "%s: wait raised %s", what, brief(obs["wait"]))
    logs = c["layers"].count("log")
    expect(obs["waited"] == ["in"] * logs + ["out"] * logs, "%s: wait went through the logging wrappers as %s", what, obs["waited"])
    return [c["platform"], "layers:%d" % len(c["layers"])], bool(c["layers"] or m.failed or len(c["commands"]) > len({x["cls"] for x in c["commands"]}))
