"""Page dispatch: commands and decoders obtained by page code."""
from common import *  # noqa
from common import op, resolve, observe, exc_info, FakeExecuter, run_command

VPD = "infi.asi.cdb.inquiry.vpd_pages:"
SES = "infi.asi.cdb.diagnostic.ses_pages:"


@op
def pages(items, order, conf=None, staged=0):
    """Look up every page (all of them before any is built, if staged), build every command, then run them in `order`."""
    conf_page = None
    if conf is not None:
        conf_page = run_command(resolve(SES + "get_ses_page")(1)(), FakeExecuter([{"data": conf}]))
    found, out = [None] * len(items), [None] * len(items)

    def look_up(it):
        base, getter = (VPD, "get_vpd_page") if it["family"] == "vpd" else (SES, "get_ses_page")
        if it["via"] == "class":
            cls = resolve(base + it["name"])
            return cls(it["code"]) if it.get("code_arg") else cls
        return resolve(base + getter + ("_data" if it["via"] == "data" else ""))(it["code"])

    def make(it, cls):
        if isinstance(cls, Exception):
            raise cls
        args = [conf_page] if it.get("conf") else []
        if it["via"] == "data" and it["family"] == "ses":
            args = [conf_page]
        return cls(*args)

    def attempt(f, *args):
        try:
            return f(*args)
        except Exception as e:
            return e
    classes = [attempt(look_up, it) for it in items] if staged else None
    for i, it in enumerate(items):
        try:
            found[i] = make(it, classes[i] if staged else look_up(it))
        except Exception as e:
            out[i] = {"build_error": exc_info(e)}
    for i in order:
        it, obj = items[i], found[i]
        if obj is None:
            continue
        r = {}
        ex = FakeExecuter([{"data": it["data"], "trunc": 1}])
        try:
            if it["via"] == "data":
                obj.unpack(bytes.fromhex(it["data"]))
                result = obj
            else:
                result = run_command(obj, ex)
        except Exception as e:
            r["error"] = exc_info(e)
        else:
            r["result"] = observe(result, it["shape"])
            r["type"] = type(result).__name__
        r["requests"] = ex.requests
        out[i] = r
    return out
