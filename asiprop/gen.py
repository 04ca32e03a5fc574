"""Shared Hypothesis strategies."""
from hypothesis import strategies as st
from .core import interesting

_cache = {}


def ints(lo, hi):
    """Integers in [lo, hi]: uniform, boundary values, single/multi-bit patterns and constants mined from the sources."""
    key = (lo, hi)
    if key not in _cache:
        pool = interesting(lo, hi)
        _cache[key] = st.one_of(st.integers(lo, hi), st.sampled_from(pool) if pool else st.integers(lo, hi), uniform(lo, hi))
    return _cache[key]


def uniform(lo, hi):
    # st.integers is biased to small values for wide ranges; composing bytes is not
    span = hi - lo + 1
    n = (span.bit_length() + 7) // 8 + 1
    return st.binary(min_size=n, max_size=n).map(lambda b: lo + int.from_bytes(b, "big") % span)


u8 = ints(0, 0xFF)
u16 = ints(0, 0xFFFF)
u32 = ints(0, 0xFFFFFFFF)
u64 = ints(0, (1 << 64) - 1)
bit = st.integers(0, 1)


def nbits(n):
    return ints(0, (1 << n) - 1)


def raw(n, m=None):
    """Byte strings of length n..m, not only the small ones."""
    m = n if m is None else m
    plain = st.binary(min_size=n, max_size=m)
    if m == 0:
        return plain
    spread = st.tuples(st.integers(n, m), st.binary(min_size=1, max_size=8), st.integers(0, 255)).map(_pattern)
    return st.one_of(plain, spread)


def _pattern(t):
    n, seedb, k = t
    out = bytearray()
    x = int.from_bytes(seedb, "big") * 2654435761 + k + 1
    while len(out) < n:
        x = (x * 6364136223846793005 + 1442695040888963407) & ((1 << 64) - 1)
        out.append((x >> 33) & 0xFF)
    return bytes(out[:n])


def fill(n):
    """Exactly n pseudo-random or generated bytes."""
    return raw(n, n)


ascii_text = st.characters(min_codepoint=0x21, max_codepoint=0x7e)


def text(max_size, min_size=0):
    return st.text(alphabet=st.characters(min_codepoint=0x20, max_codepoint=0x7e), min_size=min_size, max_size=max_size)


class Bits:
    """Spec-side field writer: place(values) by (byte, msb, width) big-endian."""

    def __init__(self, size):
        self.buf = bytearray(size)

    def put(self, byte, value, nbytes=1):
        self.buf[byte:byte + nbytes] = value.to_bytes(nbytes, "big")
        return self

    def bits(self, byte, low, width, value):
        """Field occupying bits low..low+width-1 of one byte."""
        assert 0 <= value < (1 << width), (byte, low, width, value)
        self.buf[byte] |= value << low
        return self

    def raw(self, byte, data):
        self.buf[byte:byte + len(data)] = data
        return self

    def bytes(self):
        return bytes(self.buf)


fills = st.one_of(st.integers(0, 255), st.integers(0, 255), st.sampled_from(["=00", "=00", "=ff", "=a5", "=t1", "=t2", "=h1", "=h2"]))
