import json, os, re
from hypothesis import strategies as st
from ..core import expect, brief
from ..gen import u8

ID = "P19"
QUICK, THOROUGH = 60, 2000
TECHNIQUE = "exhaustive enumeration of all 65536 code/qualifier pairs in both sense formats, against the standard's table"
LEVEL = "exhaustive"
RULE = ("A case is one additional sense code with all its 256 qualifiers, decoded from fixed or descriptor format sense data; all 65536 pairs are enumerated in both "
        "formats. Names are compared with the standard's list. Non-trivial when the code has assigned qualifiers.")
NOTE = "The reference table was transcribed once from the ASC/ASCQ list and reviewed; the three ranges are stated as rules."
TABLE = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "asc_table.json")))


def strategy():
    return st.builds(lambda code, f: dict(code=code, fixed=f), u8, st.booleans())


def fixed():
    for code in range(256):
        for f in (True, False):
            yield dict(code=code, fixed=f)


def numbers(text, *values):
    """The text states each value, in decimal or hexadecimal."""
    toks = re.findall(r"0x[0-9a-fA-F]+|[0-9a-fA-F]+", text)
    for v in values:
        if not any((t.isdigit() and int(t) == v) or int(t, 16) == v for t in toks):
            return False
    return True


def judge(c, run):
    code = c["code"]
    obs = run("asc_names", code=code, fixed=c["fixed"])
    known = 0
    for q, (a, b, name, text) in enumerate(obs):
        what = "additional sense code %02Xh/%02Xh" % (code, q)
        expect(a != "error", "%s: %s %s", what, b, name)
        expect((a, b) == (code, q), "%s: decoded as %s/%s", what, a, b)
        expect(name in text, "%s: its name %r is not part of the sense object's text %r", what, name, text)
        key = "%02X%02X" % (code, q)
        if code == 0x40 and q >= 0x80:
            prefix = "DIAGNOSTIC FAILURE ON COMPONENT"
        elif code == 0x4D:
            prefix = "TAGGED OVERLAPPED COMMANDS"
        elif code == 0x70:
            prefix = "DECOMPRESSION EXCEPTION SHORT ALGORITHM ID OF"
        else:
            prefix = None
        if prefix:
            known += 1
            m = re.match(re.escape(prefix) + r"\W*([0-9A-Fa-f]+)\b", name)
            expect(m and int(m.group(1), 16) == q, "%s: named %r", what, name)
        elif key in TABLE:
            known += 1
            expect(name == TABLE[key], "%s: named %r, the standard says %r", what, name, TABLE[key])
        else:
            expect(name not in NAMES and numbers(name, code, q), "%s: unassigned, named %r", what, name)
    return ["known:%d" % (known > 0)], known > 0


NAMES = set(TABLE.values())
