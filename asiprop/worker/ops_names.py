"""Published tables of names."""
from common import op, enc
import importlib


@op
def lookups(module, attr, keys, how):
    """The value under every key: of a mapping ("map"), one level deeper ("map2", keys are pairs) or attributes of a class or module ("attr")."""
    try:
        table = importlib.import_module(module)
        if attr:
            table = getattr(table, attr)
    except (ImportError, AttributeError):
        return None         # not published there any more
    out = []
    for k in keys:
        try:
            if how == "attr":
                v = getattr(table, k)
            elif how == "map2":
                v = table[k[0]][k[1]]
            else:
                v = table[k]
            out.append(v if isinstance(v, (str, int)) else "<%s>" % type(v).__name__)
        except (KeyError, AttributeError, IndexError):
            out.append(None)
    return out
