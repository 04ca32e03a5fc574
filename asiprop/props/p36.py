from hypothesis import strategies as st
from ..core import expect, brief
from ..gen import u8, u16, u32, u64, ints, raw
from ..replies import R, hexed, page_bytes
from .. import ses
from . import p06, p18
from .. import execs as X
from .p15 import conf_of

ID = "P36"
QUICK, THOROUGH = 1000, 40000
TECHNIQUE = "stateful property-based testing: a history over several commands and replies against the same history of each object alone in a process of its own (metamorphic)"
RULE = ("A case is a history of building, changing, executing (also while another command's request is outstanding), decoding and overwriting decoded replies over two to five objects - commands of "
        "every kind, decoders, commands sharing one configuration page. One case in four is a history over two or three executers of all platforms, each with its own fake device, requests of one being made while another's are with the kernel or while it lets other greenlets run. Every object's observations must equal those of its own steps run alone in a fresh process, earlier replies must be unchanged at "
        "the end, and an unchanged command executed again must send the same request. Non-trivial when at least two objects are executed and something is changed, overwritten, nested or rebuilt.")
NOTE = "The oracle is the code itself without the other objects, so a wrong encoding or decoding as such is left to P01-P21."

from .p34 import WORKER_ENV     # a gevent that only says when it was given a chance to run

SENSE = "infi.asi.sense:get_sense_object_from_buffer"
NAMES = sorted(n for n in R)
SETS = [("control.naca", st.integers(0, 1)), ("control.vendor_specific", st.integers(0, 3)), ("control.naca", st.just(1))]


@st.composite
def an_object(draw):
    k = draw(st.integers(0, 9))
    if k < 4:
        return dict(kind="cat", name=draw(st.sampled_from(p06.NAMES)))
    if k < 8:
        name = draw(st.sampled_from(NAMES))
        return dict(kind="rep", name=name, fs=draw(st.lists(R[name].strategy, min_size=1, max_size=2)))
    if k == 8:
        return dict(kind="sense", data=draw(st.lists(st.one_of(p18.fixed_sense, p18.desc_sense).map(lambda b: b.hex()), min_size=1, max_size=2)))
    conf = draw(st.lists(st.tuples(ses.etype, st.integers(0, 3)), max_size=3).map(conf_of))
    return dict(kind="ses", conf=conf, page=draw(st.sampled_from([2, 7])), fs=draw(st.lists(st.fixed_dictionaries(dict(
        b1=u8, gen=u32, status=hexed(page_bytes(4, 24)), texts=st.lists(hexed(page_bytes(0, 8)), min_size=1, max_size=3))), min_size=1, max_size=2)))


@st.composite
def one_step(draw, n, depth=0):
    i = draw(st.integers(0, n - 1))
    what = draw(st.sampled_from(["run", "run", "run", "build", "build", "set", "set", "setn", "spoil", "dump"]))
    if what == "set":
        name, values = draw(st.sampled_from(SETS))
        return ["set", i, name, draw(values)]
    if what == "setn":
        return ["setn", i, draw(st.integers(0, 15)), draw(st.one_of(st.integers(0, 3), st.integers(0, 255)))]
    if what == "run":
        nested = draw(st.lists(one_step(n, depth + 1), max_size=3)) if depth == 0 and draw(st.integers(0, 3)) == 0 else []
        return ["run", i, draw(st.integers(0, 3)), nested]
    return [what, i]


@st.composite
def case(draw):
    objs = draw(st.lists(an_object(), min_size=1, max_size=4))
    copies = draw(st.lists(st.integers(0, len(objs) - 1), min_size=1 if len(objs) == 1 else 0, max_size=2))
    pick = list(range(len(objs))) + copies        # several objects built with the same arguments
    steps = draw(st.lists(one_step(len(pick)), min_size=3, max_size=14))
    return dict(objs=objs, pick=pick, steps=steps)


PLATFORMS = ["linux_sg", "linux_ioctl", "solaris", "aix", "aix_libc", "windows", "windows_async"]


@st.composite
def executers(draw):
    """A history over two or three executers, each with a device of its own; requests of one are made while another's are with the kernel."""
    n = draw(st.integers(2, 3))
    platforms = draw(st.one_of(st.sampled_from(PLATFORMS).map(lambda p: [p] * n), st.lists(st.sampled_from(PLATFORMS), min_size=n, max_size=n)))
    libc = [p for p in platforms if p.startswith("aix")]          # a process has the library or it does not
    platforms = [libc[0] if p in libc else p for p in platforms]
    setups = [dict(platform=p, order=draw(st.lists(st.integers(0, 5), max_size=6)), opts=dict({} if p.startswith("windows") else dict(timeout=draw(st.sampled_from([None, 1000, 7000]))), max_queue_size=draw(st.sampled_from([None, 3, 15])))) for p in platforms]
    ids = iter(range(1, 100))

    def command(platform):
        comp = dict(draw(st.one_of(X.replies(), X.replies(), st.builds(lambda s, g: dict(status=2, sense=s, gen=g), X.sense_bytes, st.integers(1, 99)),
                                   st.builds(lambda s: dict(status=s), st.sampled_from([8, 0x18, 0x28, 0x40])))))
        if platform.startswith("aix") and comp.get("status"):
            comp.update(validity=1, errno_with_status=5)
        return X.command(next(ids), draw(X.cdbs()), draw(X.transfer(600)), comp)

    def step(depth, others):
        on = draw(st.sampled_from(others))
        do = draw(st.sampled_from(["call", "call", "call", "send", "send", "wait"] if platforms[on] == "linux_sg" else ["call"]))
        out = dict(on=on, do=do)
        if do != "wait":
            out["cmd"] = command(platforms[on])
            rest = [k for k in others if k != on]
            if depth < 2 and rest and draw(st.integers(0, 2)) == 0:
                out["during"] = [step(depth + 1, rest) for _ in range(draw(st.integers(1, 2)))]
                out["at"] = draw(st.sampled_from(["kernel", "yield"]))
        return out
    steps = [step(0, list(range(n))) for _ in range(draw(st.integers(2, 9)))]
    return dict(setups=setups, steps=steps + [dict(on=k, do="wait") for k in range(n) if platforms[k] == "linux_sg"])


def strategy():
    return st.one_of(case(), case(), case(), executers())


def own_steps(steps, k):
    out = []
    for s in steps:
        if s["on"] == k:
            out.append({n: v for n, v in s.items() if n not in ("during", "at")})
        out += own_steps(s.get("during", []), k)
    return out


def judge_executers(c, run):
    from ..core import HarnessError
    n = len(c["setups"])
    obs = run("executers", setups=c["setups"], steps=c["steps"], projections=[own_steps(c["steps"], k) for k in range(n)])
    text = "executers %s, steps %s" % (brief([s["platform"] for s in c["setups"]]), brief(c["steps"], 900))
    for o in [obs["all"]] + obs["alone"]:
        expect("hang" not in o, "%s: did not terminate", text)
        if "bad" in o:
            raise HarnessError(o["bad"])
    whole = obs["all"]["ok"]
    for k, first, now in whole["changed"]:
        expect(False, "what executer %d gave changed afterwards from %s to %s (%s)", k, brief(first, 300), brief(now, 300), text)
    for k, alone in enumerate(obs["alone"]):
        for what in ("requests", "events"):
            a, b = whole[what][str(k)], alone["ok"][what][str(k)]
            for i, (x, y) in enumerate(zip(a, b)):
                expect(x == y, "%s %d of executer %d: %s; without the other executers %s (%s)", what, i, k, brief(x, 400), brief(y, 400), text)
            expect(len(a) == len(b), "%d %s of executer %d, without the others %d (%s)", len(a), what, k, len(b), text)
    used = {s["on"] for s in c["steps"] if s["do"] != "wait"}
    failed = any(e[3].get("error") for es in whole["events"].values() for e in es if e[0] == "step")
    return sorted({"executer:" + s["platform"] for s in c["setups"]}), len(used) > 1 or failed


def fixed():
    """For every command: configure one, run it, overwrite its reply, run another one built with the same arguments before and after."""
    def history(a):
        return dict(objs=[a], pick=[0, 0, 0], steps=[
            ["build", 0], ["build", 1], ["run", 0, 0, []], ["set", 0, "control.naca", 1], ["set", 0, "control.vendor_specific", 3], ["run", 0, 1, [["run", 1, 0, []]]], ["build", 2],
            ["run", 2, 0, []], ["spoil", 2], ["run", 1, 1, []], ["run", 1, 1, []], ["run", 2, 0, []], ["build", 2], ["run", 2, 0, []], ["dump", 2], ["dump", 1]])
    sense = lambda n, a: ("70 00 05 00 00 00 00 0a" + " %02x" % a * n).replace(" ", "")
    for platform in PLATFORMS:
        extra = dict(validity=1, errno_with_status=5) if platform.startswith("aix") else {}
        fail = lambda i, n, a: X.command(i, "28" + "00" * 9, {"read": 16}, dict(extra, status=2, sense=sense(n, a), gen=a))
        good = lambda i: X.command(i, "28" + "00" * 9, {"read": 16}, {"gen": i})
        for inner, at in [([], "kernel")] + [(i, a) for a in ("kernel", "yield") for i in ([dict(on=1, do="call", cmd=fail(7, 10, 5))], [dict(on=1, do="call", cmd=good(8))])]:
            yield dict(setups=[dict(platform=platform, opts={}), dict(platform=platform, opts={} if platform.startswith("windows") else dict(timeout=1000))], steps=[
                dict(on=0, do="call", cmd=fail(1, 60, 3)), dict(on=0, do="call", cmd=dict(good(2)), during=inner, at=at), dict(on=0, do="call", cmd=fail(3, 10, 4)), dict(on=1, do="call", cmd=good(4)),
                dict(on=1, do="call", cmd=fail(5, 20, 6)), dict(on=0, do="call", cmd=fail(6, 30, 6), during=inner, at=at)])
    for name in p06.NAMES:
        yield history(dict(kind="cat", name=name))
    for page in (2, 7):
        for pairs in ([], [(0x17, 0)], [(0x17, 2), (2, 1)]):
            yield history(dict(kind="ses", conf=conf_of(pairs), page=page, fs=[dict(b1=0, gen=g, status="%02x" % g * 16, texts=["41", "4242"]) for g in (1, 2)]))
    names = [n for n in p06.NAMES]
    for a, b in zip(names, names[1:] + names[:1]):
        yield dict(objs=[dict(kind="cat", name=a), dict(kind="cat", name=b)], pick=[0, 1, 1], steps=[
            ["build", 0], ["build", 1], ["set", 0, "control.naca", 1], ["set", 1, "control.vendor_specific", 2], ["run", 0, 0, []], ["run", 1, 0, [["run", 0, 0, []]]], ["build", 2], ["run", 2, 0, []], ["run", 1, 0, []]])


def spec_of(o):
    """(worker specs, replies) of one object; the last spec is the object itself."""
    if o["kind"] == "cat":
        cmd, kind, reply = p06.CAT[o["name"]]
        data = None if reply in (p06.RAW, "tur") else reply
        return [{"cmd": cmd}], [[{"data": data}, {"raise": "AsiSCSIError"}] if not data else [{"data": data}]]
    if o["kind"] == "rep":
        r = R[o["name"]]
        return [{"cmd": r.cmd(o["fs"][0])}], [[{"data": r.build(f).hex(), "trunc": 1} for f in o["fs"]]]
    if o["kind"] == "sense":
        return [{"decode": SENSE}], [[{"data": d} for d in o["data"]]]
    build = ses.status_build if o["page"] == 2 else ses.descriptor_build
    conf = {"cmd": dict(p06.sp("diagnostic.ses_pages:get_ses_page", 1), factory=True)}
    fs = [dict(f, conf=o["conf"], rsvd=0) for f in o["fs"]]
    return ([conf, {"cmd": dict(p06.sp("diagnostic.ses_pages:get_ses_page", o["page"]), factory=True), "conf": "@"}],
            [[{"data": ses.conf_build(o["conf"]).hex()}], [{"data": build(f).hex()} for f in fs]])


def project(steps, keep):
    out = []
    for s in steps:
        inner = project(s[3], keep) if s[0] == "run" else []
        if s[1] in keep:
            out.append(s[:3] + [inner] if s[0] == "run" else s)
        else:
            out += inner
    return out


def preorder(steps):
    return [x for s in steps for x in [s] + (preorder(s[3]) if s[0] == "run" else [])]


def judge(c, run):
    if "setups" in c:
        return judge_executers(c, run)
    specs, replies, first, pre, needs = [], [], {}, [], {}
    roles = []                                   # object -> worker index
    for k in c["pick"]:
        o = c["objs"][k]
        sp, rp = spec_of(o)
        if len(sp) == 2:                         # commands picked from the same object share one configuration page
            if k not in first:
                first[k] = len(specs)
                specs.append(sp[0])
                replies.append(rp[0])
                pre += [["build", first[k]], ["run", first[k], rp[0][0], []]]
            sp, rp = [dict(sp[1], conf=first[k])], rp[1:]
            needs[len(specs)] = first[k]
        roles.append(len(specs))
        specs += sp
        replies += rp

    def concrete(s):
        i = roles[s[1] % len(roles)]
        if s[0] == "run":
            return ["run", i, replies[i][s[2] % len(replies[i])], [concrete(x) for x in s[3]]]
        return [s[0], i] + s[2:]
    steps = pre + [["build", i] for i in sorted(set(roles))] + [concrete(s) for s in c["steps"]]
    keeps = [sorted({i, needs.get(i, i)}) for i in sorted(set(roles))]
    obs = run("independent", objects=specs, steps=steps, projections=[project(steps, k) for k in keeps])
    whole = obs["all"]
    for o in [whole] + obs["alone"]:
        expect("hang" not in o, "a history of %d steps did not terminate (%s): %s", len(steps), o.get("hang"), brief(steps))
        if "bad" in o:
            from ..core import HarnessError
            raise HarnessError(o["bad"])
    text = "objects %s, steps %s" % (brief([s.get("cmd") or s for s in specs], 500), brief(steps, 900))
    whole = whole["ok"]
    for r in whole["changed"]:
        expect(False, "a decoded reply of object %d changed afterwards from %s to %s (%s)", r["i"], brief(r["first"], 300), brief(r["now"], 300), text)
    for keep, alone in zip(keeps, obs["alone"]):
        mine = [r for r in whole["out"] if r["i"] in keep]
        for n, (a, b) in enumerate(zip(mine, alone["ok"]["out"])):
            expect(a == b, "step %d of object %d (%s) gave %s; without the other objects it gives %s (%s)", n, a["i"], a["step"], brief(a, 500), brief(b, 500), text)
        expect(len(mine) == len(alone["ok"]["out"]), "different numbers of steps")
    # the same object executed again without a change in between sends the same request
    sent, started = {}, [whole["out"][i] for i in whole["start_order"]]
    for r in started:
        if r["step"] in ("build", "set", "setn"):
            sent.pop(r["i"], None)
        elif r["step"] == "run" and "requests" in r:
            expect(sent.setdefault(r["i"], r["requests"]) == r["requests"], "object %d executed again sent %s, the first time %s (%s)", r["i"], brief(r["requests"]), brief(sent[r["i"]]), text)
    # ... and makes the same of the same reply
    flat = preorder(steps)
    expect(len(flat) == len(started) and all(s[:2] == [r["step"], r["i"]] for s, r in zip(flat, started)), "harness: %s steps started of %s", len(started), len(flat))
    made = {}
    for s, r in zip(flat, started):
        if s[0] in ("build", "set", "setn"):
            made.pop(s[1], None)
        elif s[0] == "run" and not any(x[1] == s[1] and x[0] in ("build", "set", "setn") for x in preorder(s[3])):
            key, outcome = brief(s[2], 100000), r.get("error") or {"result": r.get("result")}
            before = made.setdefault(s[1], {}).setdefault(key, outcome)
            expect(before == outcome, "object %d executed again made %s of its reply, the first time %s (%s)", r["i"], brief(outcome, 500), brief(before, 500), text)
    # objects built with the same arguments and not changed send the same request
    fresh, pristine = {}, {}
    for r in started:
        if r["step"] == "build":
            pristine[r["i"]] = "error" not in r
        elif r["step"] in ("set", "setn", "spoil"):
            pristine[r["i"]] = False
        elif r["step"] == "run" and "requests" in r and pristine.get(r["i"]):
            key = brief(specs[r["i"]], 10000)
            expect(fresh.setdefault(key, r["requests"]) == r["requests"], "two commands built with the same arguments sent %s and %s (%s)", brief(fresh[key]), brief(r["requests"]), text)
    ran = {r["i"] for r in whole["out"] if r["step"] == "run"}
    acted = {s[0] for s in c["steps"]} & {"set", "setn", "spoil", "build"} or any(s[0] == "run" and s[3] for s in c["steps"])
    return sorted({o["kind"] for o in c["objs"]}), len(ran) > 1 and bool(acted)
