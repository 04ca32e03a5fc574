#!/usr/bin/env python3-vt
"""Decide one property: python3-vt run.py P01 [--tier quick|thorough] [--replay FILE]

exit 0 held on everything explored; exit 1 + 'VIOLATION property=.. replay=..'; anything else: the check failed."""
import sys, os, json, time, importlib, subprocess, tempfile, argparse, traceback, hashlib

sys.dont_write_bytecode = True
os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", os.path.join(tempfile.gettempdir(), "asiprop-hypothesis"))
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from asiprop import core

SHARDS = 6
BUDGET = {"quick": 420, "thorough": 6 * 3600}       # seconds; what was not explored by then is not claimed in the evidence
GRACE = 45                                           # seconds the other shards get once one has found a violation


def load(pid):
    return importlib.import_module("asiprop.props.%s" % pid.lower())


def runner_for(prop):
    return core.Runner(env=getattr(prop, "WORKER_ENV", None))


def shard_main(prop, args, seed):
    stats = core.Stats()
    runner = runner_for(prop)
    out = {"error": None, "violation": None}
    try:
        fixed = []
        if hasattr(prop, "fixed"):
            fixed = [c for i, c in enumerate(prop.fixed()) if i % SHARDS == args.shard]
        if args.shard == 0:
            fixed = corpus(prop.ID) + fixed
        total = prop.QUICK if args.tier == "quick" else prop.THOROUGH
        per = (total + SHARDS - 1) // SHARDS
        found = core.run_shard(prop, seed * 1009 + args.shard, per, runner, fixed, stats, BUDGET[args.tier])
        if found is not None:
            out["violation"] = [{"message": m, "case": c, "history": h} for m, c, h in found]
    except Exception:
        out["error"] = traceback.format_exc()
    finally:
        runner.close()
    out["stats"] = dict(evaluations=stats.evaluations, nontrivial=sorted(stats.nontrivial), labels=stats.labels, samples=stats.samples,
                        skipped=stats.skipped, excluded=stats.excluded, stopped=stats.stopped)
    with open(args.out, "w") as f:
        json.dump(out, f)


def corpus(pid):
    path = os.path.join(VERIF, "corpus", pid + ".json")
    return json.load(open(path)) if os.path.exists(path) else []


def fails(prop, cases):
    """Run cases in one fresh worker; message of the violation raised by the last one, else None."""
    runner = runner_for(prop)
    try:
        for case in cases[:-1]:
            try:
                core.judge(prop, case, runner)
            except (core.Violation, core.Skipped):
                pass
        try:
            core.judge(prop, cases[-1], runner)
        except core.Skipped:
            return None
        except core.Violation as v:
            return str(v)
        return None
    finally:
        runner.close()


SHORTEN_SECONDS = 120


def confirm(prop, candidates):
    """A violation counts only if its replay file reproduces it from a fresh process."""
    for v in candidates:
        msg = fails(prop, [v["case"]])
        if msg:
            return msg, v["case"], []
    for v in candidates:
        hist = v.get("history") or []
        msg = hist and fails(prop, hist + [v["case"]])
        if msg:
            return shorten(prop, msg, v["case"], hist)
    return None, None, None


def shorten(prop, msg, case, hist):
    """Leave out halves, quarters, ... of the history as long as the case still fails after it."""
    until = time.time() + SHORTEN_SECONDS
    chunk = len(hist)
    while chunk > 1:
        chunk = (chunk + 1) // 2
        i = 0
        while i < len(hist):
            if time.time() > until:
                return msg, case, hist
            cand = hist[:i] + hist[i + chunk:]
            m = fails(prop, cand + [case])
            if m:
                hist, msg = cand, m
            else:
                i += chunk
        if chunk == 1:
            break
    return msg, case, hist


def found_violation(out):
    try:
        return bool(json.load(open(out))["violation"])
    except Exception:
        return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selfcheck", action="store_true", help="can the code under test and the tools be imported?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--out")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    if args.selfcheck:
        import hypothesis
        print("hypothesis %s" % hypothesis.__version__)
        run = core.Runner()
        run("ping")
        run.close()
        print("worker ok")
        return 0
    prop = load(args.property)
    if args.shard is not None:
        shard_main(prop, args, seed)
        return 0
    if args.replay:
        rec = json.load(open(args.replay))
        msg = fails(prop, (rec.get("history") or []) + [rec["case"]])
        if msg:
            print("replayed: %s" % msg)
            print("VIOLATION property=%s replay=%s" % (prop.ID, args.replay))
            return 1
        print("replay holds")
        return 0

    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="asiprop-")
    procs = []
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    for i in range(SHARDS):
        out = os.path.join(tmp, "s%d.json" % i)
        procs.append((subprocess.Popen([sys.executable, os.path.join(VERIF, "run.py"), prop.ID, "--tier", args.tier, "--shard", str(i),
                                        "--out", out], env=env, cwd=VERIF, stdout=subprocess.DEVNULL), out))
    results = []
    left = dict(enumerate(procs))
    limit = None
    while left:
        for i, (p, out) in list(left.items()):
            if p.poll() is not None:
                del left[i]
                if limit is None and found_violation(out):
                    limit = time.time() + GRACE
        if limit is not None and time.time() > limit:
            for p, out in left.values():
                p.terminate()                        # its worker sees the end of its input and ends
                p.wait()
            break
        time.sleep(0.05)
    for p, out in procs:
        try:
            results.append(json.load(open(out)))
        except Exception:
            results.append({"error": "shard ended with code %r without a result" % p.returncode, "violation": None, "stats": None})
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)

    nontrivial, labels, samples, evaluations, skipped, excluded = set(), {}, [], 0, 0, {}
    stopped = False
    for r in results:
        s = r.get("stats")
        if not s:
            continue
        evaluations += s["evaluations"]
        skipped += s["skipped"]
        stopped |= s["stopped"]
        nontrivial.update(s["nontrivial"])
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in s["excluded"].items():
            excluded[k] = excluded.get(k, 0) + v
        samples += s["samples"][-1:]
    violations = 0
    vmsg = None
    pending_error = None
    for r in results:
        if r["violation"] and not vmsg:
            try:
                msg, case, hist = confirm(prop, r["violation"])
            except core.HarnessError as e:
                pending_error = str(e)
                continue
            if msg is None:
                pending_error = "violation did not reproduce: %s" % json.dumps(r["violation"])[:2000]
                continue
            rec = {"property": prop.ID, "message": msg, "case": case, "history": hist, "seed": seed, "tier": args.tier}
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s.json" % (prop.ID, core.case_hash(rec["case"])))
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            vmsg = (msg, path)
            violations = 1
    errors = [r["error"] for r in results if r.get("error")]
    evidence = dict(property=prop.ID, tier=args.tier, seed=seed, level=getattr(prop, "LEVEL", "exploration"),
                    coverage=dict(evaluations=evaluations, distinct_nontrivial=len(nontrivial), rule=prop.RULE,
                                  samples=[json.loads(json.dumps(x)) for x in trim(samples)], labels=dict(sorted(labels.items())),
                                  skipped=skipped, excluded_known_findings=excluded, shards=SHARDS, stopped_by_time=stopped),
                    assumptions=getattr(prop, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.ID + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k in core.KNOWN.get(prop.ID, []):
        print("KNOWN-FINDING: property=%s %s" % (prop.ID, k["what"]))
    if vmsg:
        print("violated: %s" % vmsg[0])
        print("VIOLATION property=%s replay=%s" % (prop.ID, vmsg[1]))
        return 1
    if errors or pending_error:
        print("check error: %s" % (pending_error or errors[0]), file=sys.stderr)
        return 3
    if len(nontrivial) == 0:
        print("check error: no non-trivial case was generated", file=sys.stderr)
        return 4
    print("%s held: %d cases, %d distinct non-trivial, %.1fs" % (prop.ID, evaluations, len(nontrivial), time.time() - t0))
    return 0


def trim(samples):
    out = []
    for s in samples[:6]:
        t = json.dumps(s)
        out.append(s if len(t) <= 3000 else {"truncated": t[:3000]})
    return out


if __name__ == "__main__":
    sys.exit(main())
