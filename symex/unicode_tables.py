"""Character tables of this interpreter, as lists of (lo, hi) ranges."""
import sys
from functools import lru_cache

MAX = sys.maxunicode


def to_ranges(points):
    ranges = []
    for p in points:
        if ranges and ranges[-1][1] == p - 1:
            ranges[-1][1] = p
        else:
            ranges.append([p, p])
    return tuple((a, b) for a, b in ranges)


@lru_cache(None)
def char_class(name):
    method = getattr(str, name)
    return to_ranges(p for p in range(MAX + 1) if method(chr(p)))


@lru_cache(None)
def is_cased():
    """Cased characters of str.islower/isupper/istitle: those which are upper,
    lower or title case."""
    return to_ranges(
        p for p in range(MAX + 1)
        if chr(p).isupper() or chr(p).islower() or is_title_char(chr(p))
    )


def is_title_char(c):
    # titlecase letters (Lt): istitle, but not isupper
    return c.istitle() and not c.isupper()


@lru_cache(None)
def title_chars():
    return to_ranges(p for p in range(MAX + 1) if is_title_char(chr(p)))


def is_cased_char(c):
    return c.isupper() or c.islower() or is_title_char(c)


def is_case_ignorable(c):
    # as str.lower of capital sigma sees it
    return ('A' + c + '\u03a3').lower()[-1] == '\u03c2' and (c + '\u03a3').lower()[-1] != '\u03c2'


@lru_cache(None)
def case_ignorable():
    return to_ranges(p for p in range(MAX + 1) if is_case_ignorable(chr(p)))


@lru_cache(None)
def case_map(name):
    """name: lower, upper. Returns runs [(lo, hi, step, delta)] of characters
    mapped to one other character and the set of those mapped to several."""
    method = getattr(str, name)
    runs = []
    special = []
    for p in range(MAX + 1):
        v = method(chr(p))
        if len(v) != 1:
            special.append(p)
            continue
        d = ord(v) - p
        if not d:
            continue
        if runs:
            lo, hi, step, delta = runs[-1]
            if delta == d and ((lo == hi and p - hi in (1, 2)) or (lo != hi and p - hi == step)):
                runs[-1] = (lo, p, p - hi, delta)
                continue
        runs.append((p, p, 1, d))
    return tuple(runs), tuple(special)


@lru_cache(None)
def decimal_zeros():
    """Zeros of the decimal digit ranges."""
    import unicodedata
    zeros = []
    for p in range(MAX + 1):
        if unicodedata.decimal(chr(p), None) == 0:
            zeros.append(p)
    return tuple(zeros)
