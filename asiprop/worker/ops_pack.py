"""Packing: parse, pack, parse again; build from values; change values and pack."""
from common import *  # noqa
from common import op, resolve, exc_info, enc


def _names(obj, attrs):
    return attrs if attrs else sorted(obj._all_field_names())


def dump(value):
    if hasattr(value, "_all_field_names"):
        return {"$type": type(value).__name__, "f": {n: dump(getattr(value, n)) for n in sorted(value._all_field_names())}}
    if isinstance(value, (list, tuple)):
        return [dump(v) for v in value]
    if type(value).__module__.startswith("infi.asi"):
        return {"$type": type(value).__name__, "f": {n: dump(getattr(value, n)) for n in sorted(vars(value)) if not n.startswith("_")}} if hasattr(value, "__dict__") else {"$repr": repr(value)}
    return enc(value)


def _parse(cls, kwargs, raw):
    if hasattr(cls, "create_from_string"):
        return cls.create_from_string(raw)
    o = cls(**kwargs)
    o.unpack(raw)
    return o


def _pack(o):
    return bytes(type(o).write_to_string(o) if hasattr(type(o), "write_to_string") else o.pack())


@op
def repack(cls, first, second=None, skip=(), attrs=None, kwargs=None):
    cls, kwargs = resolve(cls), kwargs or {}
    out = {}

    def stage(name, func):
        try:
            out[name] = func()
        except Exception as e:
            out[name] = {"error": exc_info(e)}

    try:
        o = _parse(cls, kwargs, bytes.fromhex(first))
    except Exception as e:
        return {"parse": {"error": exc_info(e)}}
    values = lambda x: {n: dump(getattr(x, n)) for n in _names(x, attrs)}
    out["values"] = values(o)
    stage("packed", lambda: _pack(o).hex())
    if isinstance(out["packed"], str):
        stage("again", lambda: values(_parse(cls, kwargs, bytes.fromhex(out["packed"]))))
        stage("twice", lambda: _pack(o).hex())
    if second is not None:
        raw = bytes.fromhex(second)
        p, q = _parse(cls, kwargs, raw), _parse(cls, kwargs, raw)
        fields = [n for n in _names(p, attrs) if n not in skip]
        stage("built", lambda: _pack(cls(**dict(kwargs, **{n: getattr(p, n) for n in fields if getattr(p, n) is not None}))).hex())

        def change():
            for n in fields:
                setattr(o, n, getattr(q, n))
            return _pack(o).hex()
        stage("changed", change)
    return out
