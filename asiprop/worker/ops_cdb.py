from common import *  # noqa
from common import OPS, op, enc, dec, resolve, observe, exc_info, FakeExecuter, build, run_command


def _execute_one(cmd, replies, shape, keep=None):
    ex = FakeExecuter(replies)
    out = {}
    try:
        result = run_command(cmd, ex)
    except Exception as e:
        out["error"] = exc_info(e)
        out["same"] = any(e is x for x in ex.injected)
    except (KeyboardInterrupt, SystemExit, GeneratorExit) as e:
        out["error"] = exc_info(e)
        out["same"] = any(e is x for x in ex.injected)
    else:
        if keep is not None:
            keep.append(result)
        out["result"] = observe(result, shape)
        out["result_type"] = type(result).__name__
    out["requests"] = ex.requests
    return out


@op
def execute(cmd, replies=(), shape=None, times=1):
    """Build a command, run it against a scripted device, report requests and outcome(s)."""
    try:
        obj = build(cmd)
    except Exception as e:
        return {"build_error": exc_info(e), "requests": []}
    runs = [_execute_one(obj, replies, shape) for _ in range(times)]
    return runs[0] if times == 1 else {"runs": runs}


@op
def decode(cls, data, shape, args=(), kwargs=None):
    """Decode bytes with a reply class, report attributes."""
    try:
        target = resolve(cls)
        raw = bytes.fromhex(data)
        if hasattr(target, "create_from_string") and not hasattr(target, "unpack"):
            obj = target.create_from_string(raw)
        else:
            obj = target(*[dec(a) for a in args], **{k: dec(v) for k, v in (kwargs or {}).items()})
            obj.unpack(raw)
    except Exception as e:
        return {"error": exc_info(e)}
    return {"result": observe(obj, shape)}


@op
def ses_read(conf, cmd, data, shape, then=None, same_command=False):
    """Decode a configuration page, then run a status/descriptor command that depends on it; `then` is decoded next with the same
    configuration page, after which the first result is observed again."""
    from infi.asi.cdb.diagnostic import ses_pages
    conf_cmd = ses_pages.get_ses_page(1)()
    ex = FakeExecuter([{"data": conf}])
    try:
        conf_page = run_command(conf_cmd, ex)
    except Exception as e:
        return {"conf_error": exc_info(e)}
    try:
        obj = ses_pages.get_ses_page(cmd)(conf_page)
    except Exception as e:
        return {"build_error": exc_info(e)}
    keep = []
    out = _execute_one(obj, [{"data": data}], shape, keep)
    if then is not None and keep:
        other = obj if same_command else ses_pages.get_ses_page(cmd)(conf_page)
        out["then"] = _execute_one(other, [{"data": then["data"]}], then["shape"])
        out["after"] = observe(keep[0], shape)
    return out
