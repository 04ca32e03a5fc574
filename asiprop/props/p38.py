import os
from hypothesis import strategies as st
from ..core import expect, brief
from .. import execs as X

ID = "P38"
QUICK, THOROUGH = 4000, 60000
TECHNIQUE = "stateful property-based testing of the platform-independent entry points over fake devices of every platform"
RULE = ("A case is a platform string and a history of opening files, creating executers over them with generated options, running commands through them (also overlapped ones), using executer contexts "
        "and closing. Requests must reach the device the executer was created for, with the options it was given or the documented defaults. Non-trivial when two files are open or the platform is not supported.")

SUPPORTED = {"linux": ["linux-ubuntu-noble-x64", "linux-redhat-7-x64", "linux-suse-12-ppc64le", "linux"], "windows": ["windows-x64", "windows-x86", "windows"],
             "solaris": ["solaris-11-sparc", "solaris-10-x64"], "aix": ["aix-7.1-powerpc", "aix-7.2-powerpc"]}
OTHER = ["osx-10.9-x64", "darwin-20-x64", "hpux-11-ia64", "freebsd-12-x64", "vmware-6-x64", "sunos-5-sparc", "esxi-7-x64", "macos-x64", "cygwin-x64", "x64", "other-linux-x64", "my-windows-x64", "", "-linux"]
DEFAULT = {"linux": 30000, "solaris": 30, "aix": 30, "windows": 10}
CONTEXTS = {"linux": {"linux_sg": 3000, "linux_dm": 30000}, "solaris": {"solaris": 30}, "aix": {"aix": 30}, "windows": {"windows": 10}}
RDWR = {"linux": os.O_RDWR, "aix": os.O_RDWR, "solaris": os.O_RDWR | os.O_NONBLOCK}
GENERIC_RW, SHARE_RW, OPEN_EXISTING, OVERLAPPED = 0xC0000000, 3, 3, 0x40000000
BAD = {"linux": {"status": 8}, "solaris": {"status": 8}, "aix": {"validity": 1, "status": 8, "errno_with_status": 5}, "windows": {"status": 8}}


@st.composite
def case(draw):
    name = draw(st.sampled_from(sorted(SUPPORTED) + ["linux", "windows", "other"]))
    platform = draw(st.sampled_from(OTHER if name == "other" else SUPPORTED[name]))
    ids = iter(range(1, 200))

    def command():
        comp = draw(st.one_of(st.integers(1, 99).map(lambda g: {"gen": g}), st.integers(1, 99).map(lambda g: {"gen": g}), st.just(BAD.get(name, {"gen": 1}))))
        return X.command(next(ids), draw(X.cdbs()), draw(X.transfer(300)), comp)

    def path():
        return draw(X.paths(name))
    steps, files, executers = [], [], []        # files: kind or None when closed or never opened
    for _ in range(draw(st.integers(0, 3)) if name != "other" else 0):      # some executers over files of their own to start with
        steps += [["file", draw(X.paths(name).filter(lambda p: "missing" not in p))], ["executer", len(files), {}]]
        executers.append([len(files), {}])
        files.append("file")
    for _ in range(draw(st.integers(2, 12))):
        usable = [i for i, f in enumerate(files) if f]
        live = [i for i, (f, k) in enumerate(executers) if files[f]]
        plain = [i for i in live if files[executers[i][0]] == "file"]
        overlapped = [i for i in live if files[executers[i][0]] == "async_file"]
        do = draw(st.sampled_from(["file", "file", "async_file", "executer", "executer", "call", "call", "call", "async_call", "close", "context", "context", "reactor"]))
        if do in ("file", "async_file"):
            p = path()
            steps.append([do, p])
            ok = "missing" not in p and name != "other" and (do == "file" or name == "windows")
            files.append(do if ok else None)
        elif do == "executer" and (usable or name == "other" and files):
            k = {}
            if draw(st.booleans()):
                k["max_queue_size"] = draw(st.integers(1, 40))
            if name != "windows" and draw(st.booleans()):
                k["timeout"] = draw(st.one_of(st.integers(0, 32767), st.sampled_from([1, 3000, 30000, 32767])))
            f = draw(st.sampled_from(usable or list(range(len(files)))))
            steps.append([do, f, k])
            if name != "other":
                executers.append([f, k])
        elif do == "call" and plain:
            steps.append([do, draw(st.sampled_from(plain)), command()])
        elif do == "async_call" and overlapped:
            some = draw(st.lists(st.sampled_from(overlapped), min_size=1, max_size=3, unique=True))
            steps.append([do, [[e, dict(command(), comp={"gen": 7})] for e in some]])
        elif do == "close" and usable:
            i = draw(st.sampled_from(usable))
            files[i] = None
            steps.append([do, i])
        elif do == "context" and name != "other":
            steps.append([do, draw(st.sampled_from(sorted(CONTEXTS[name]))), path(), command()])
        elif do == "reactor":
            steps.append([do])
    return dict(platform=platform, steps=steps)


def strategy():
    return case()


def fixed():
    cmd = X.command(1, "28" + "00" * 9, {"read": 32}, {"gen": 3})
    for name in sorted(SUPPORTED):
        for platform in SUPPORTED[name]:
            for k in ({}, {"max_queue_size": 1}, {"max_queue_size": 3}) + (() if name == "windows" else ({"timeout": 0}, {"timeout": 1}, {"timeout": 7777}, {"timeout": 5, "max_queue_size": 2})):
                yield dict(platform=platform, steps=[["file", "/dev/asiprop-a"], ["file", "/dev/asiprop-b"], ["executer", 1, k], ["executer", 0, {}], ["call", 0, cmd], ["call", 1, cmd], ["close", 1],
                                                     ["call", 1, cmd], ["close", 0]])
            yield dict(platform=platform, steps=[["async_file", "/dev/asiprop-a"], ["reactor"], ["file", "/dev/asiprop-missing"], ["async_file", "/dev/asiprop-missing"]])
            for code in X.OPEN_ERRORS:
                bad = "/dev/asiprop-missing-%d" % code
                yield dict(platform=platform, steps=[["file", bad]] + [["context", ctx, bad, cmd] for ctx in sorted(CONTEXTS[name])] + [["async_file", bad]] * (name == "windows"))
            for ctx in CONTEXTS[name]:
                yield dict(platform=platform, steps=[["context", ctx, "/dev/asiprop-a", cmd], ["context", ctx, "/dev/asiprop-b", dict(cmd, comp=BAD[name])], ["context", ctx, "/dev/asiprop-missing", cmd]])
        for path in X.PATHS[name]:
            yield dict(platform=SUPPORTED[name][0], steps=[["file", path], ["executer", 0, {}], ["call", 0, cmd], ["close", 0]] + [["context", ctx, path, cmd] for ctx in sorted(CONTEXTS[name])])
    for platform in OTHER:
        yield dict(platform=platform, steps=[["file", "/dev/asiprop-a"], ["async_file", "/dev/asiprop-a"], ["executer", 0, {}], ["executer", 0, {"max_queue_size": 3}], ["reactor"]])


def check_flags(name, kinds, flags, what):
    expect(len(kinds) == len(flags), "%s: %d devices were opened, expected %d", what, len(flags), len(kinds))
    for k, f in zip(kinds, flags):
        if name == "windows":
            want = [GENERIC_RW, SHARE_RW, OPEN_EXISTING, OVERLAPPED if k == "async_file" else 0]
            expect(f == want, "%s: CreateFile was asked for %s, expected %s", what, [hex(x) for x in f], [hex(x) for x in want])
        else:
            expect(f == RDWR[name], "%s: the device was opened with flags %o, expected %o", what, f, RDWR[name])


def judge(c, run):
    obs = run("entry_points", platform=c["platform"], steps=c["steps"])
    expect("hang" not in obs, "%s did not terminate", brief(c, 600))
    name = c["platform"].split("-")[0]
    files, executers, opened = [], [], []
    both = 0
    for n, (step, rec) in enumerate(zip(c["steps"], obs["steps"])):
        w = "%s, step %d %s of %s" % (c["platform"], n, brief(step, 300), brief(c["steps"], 600))
        err = rec.get("error")

        def sent(want, timeouts):
            expect(len(rec["requests"]) == len(want), "%s: %d requests were sent", w, len(rec["requests"]))
            for (path, cmd), r, t in zip(want, rec["requests"], timeouts):
                expect(r["path"] == path, "%s: the request went to %s, expected %s", w, r["path"], path)
                expect(r["cdb"] == cmd["cdb"], "%s: descriptor block %s", w, r["cdb"])
                expect(r["timeout"] == t, "%s: timeout %s, expected %s", w, r["timeout"], t)

        def outcome(got, cmd):
            if cmd["comp"].get("status"):
                expect(err is not None and X.has(err, "AsiSCSIError"), "%s: %s", w, brief(got, 200))
            else:
                expect(err is None, "%s: raised %s", w, brief(err))
                expect(got == X.plain_result(cmd)[0], "%s: returned %s, expected %s", w, brief(got, 200), brief(X.plain_result(cmd)[0], 200))
        if name not in SUPPORTED or step[0] in ("async_file", "reactor") and name != "windows":
            expect(err is not None and X.has(err, "AsiException") and not X.has(err, "AsiOSError"), "%s: not refused as unsupported: %s", w, brief(rec, 300))
            expect(not rec["log"] and not rec["requests"], "%s: refused, but %s", w, brief(rec["log"] + rec["requests"], 300))
            if step[0] in ("file", "async_file"):
                files.append(None)
        elif step[0] in ("file", "async_file"):
            if "missing" in step[1]:
                expect(X.open_failed(err, step[1]), "%s: opening gave %s", w, brief(rec, 300))
                expect(rec["log"] == [["open failed", step[1]]], "%s: log %s", w, rec["log"])
            else:
                expect(err is None, "%s: raised %s", w, brief(err))
                expect(rec["log"] == [["open", step[1], 2]], "%s: log %s", w, rec["log"])
                opened.append(step[0])
            files.append(step[1])
        elif step[0] == "executer":
            expect(err is None and rec["ok"] == 0, "%s: gave %s", w, brief(rec, 300))
            expect(not rec["log"] and not rec["requests"], "%s: creating an executer touched the device: %s", w, rec["log"])
            executers.append((files[step[1]], step[2].get("timeout", DEFAULT[name])))
        elif step[0] == "call":
            path, timeout = executers[step[1]]
            sent([(path, step[2])], [timeout])
            outcome(rec.get("ok"), step[2])
            both += len({e[0] for e in executers}) > 1
        elif step[0] == "async_call":
            pairs = [(executers[e][0], cmd) for e, cmd in step[1]]
            sent(pairs, [executers[e][1] for e, _ in step[1]])
            expect(err is None, "%s: raised %s", w, brief(err))
            expect(rec["ok"] == [X.plain_result(cmd)[0] for _, cmd in pairs], "%s: results %s", w, brief(rec["ok"], 300))
        elif step[0] == "close":
            expect(err is None and rec["log"] == [["close", files[step[1]]]], "%s: gave %s", w, brief(rec, 300))
        elif step[0] == "context":
            _, ctx, path, cmd = step
            if "missing" in path:
                expect(X.open_failed(err, path), "%s: gave %s", w, brief(rec, 300))
                expect(not rec["requests"], "%s: requests were sent", w)
                expect(rec["log"] == [["open failed", path]], "%s: log %s", w, rec["log"])
            else:
                sent([(path, cmd)], [CONTEXTS[name][ctx]])
                if ctx == "linux_dm":       # block devices have no read/write interface for requests
                    expect(rec["requests"][0]["via"] == "ioctl", "%s: the request was sent by %s", w, rec["requests"][0]["via"])
                outcome(rec.get("ok"), cmd)
                expect(rec["log"] == [["open", path, 2], ["close", path]], "%s: log %s", w, rec["log"])
                opened.append("file")
        else:
            expect(err is None and rec["ok"] == 1, "%s: no reactor: %s", w, brief(rec, 200))
    if name in SUPPORTED:
        check_flags(name, opened, obs["flags"], "%s %s" % (c["platform"], brief(c["steps"], 600)))
    return [name if name in SUPPORTED else "unsupported"], both > 0 or name not in SUPPORTED
