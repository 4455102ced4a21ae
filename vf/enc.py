"""Encoding of Python values for the TLA+ trace specifications.

A number is exactly a rational: an int below 2**30 in absolute value is a JSON
number, everything else [[num limbs], [den limbs]] (see spec/Rat.tla).
"""
import math
from decimal import Decimal
from fractions import Fraction

LIM = 1 << 30


class Malformed(Exception):
    """The value does not have the expected shape."""


class NonFinite(Exception):
    """A number is infinite or not a number."""


def limbs(n):
    s = -1 if n < 0 else 1
    n = abs(n)
    out = []
    while n:
        out.append(s * (n & (LIM - 1)))
        n >>= 30
    return out


def ratio(n, d):
    if d == 1 and -LIM < n < LIM:
        return n
    return [limbs(n), limbs(d)]


def num(v):
    if type(v) is int:
        return ratio(v, 1)
    if isinstance(v, bool):
        raise Malformed(f"expected a number, got {v!r}")
    if isinstance(v, (float, Decimal)):
        if not (math.isfinite(v) if isinstance(v, float) else v.is_finite()):
            raise NonFinite(repr(v))
        return ratio(*v.as_integer_ratio())
    if isinstance(v, Fraction):
        return ratio(v.numerator, v.denominator)
    if isinstance(v, int):
        return ratio(int(v), 1)
    raise Malformed(f"expected a number, got {v!r}"[:200])


def pt(v):
    if isinstance(v, (tuple, list)) and len(v) == 2:
        return [num(v[0]), num(v[1])]
    raise Malformed(f"expected a point, got {v!r}"[:200])


def rect(v):
    try:
        e = [v.left, v.bottom, v.right, v.top]
    except AttributeError:
        raise Malformed(f"expected a rectangle, got {v!r}"[:200])
    inf = math.inf
    if e == [inf, inf, -inf, -inf]:
        return {"empty": True, "e": [0, 0, 0, 0]}
    return {"empty": False, "e": [num(x) for x in e]}


def curve(v):
    try:
        cp = v.controlPoints
    except AttributeError:
        raise Malformed(f"expected a curve, got {v!r}"[:200])
    return seq(cp, pt)


def seq(v, f):
    if not isinstance(v, (list, tuple)):
        raise Malformed(f"expected a sequence, got {v!r}"[:200])
    if len(v) > 100000:
        raise Malformed(f"a sequence of {len(v)} elements")
    return [f(x) for x in v]


def enc(shape, v):
    """Encode v, which must have the given shape."""
    if isinstance(shape, tuple):
        kind = shape[0]
        if kind == "list":
            return seq(v, lambda x: enc(shape[1], x))
        if kind == "tuple":
            if not isinstance(v, (list, tuple)) or len(v) != len(shape) - 1:
                raise Malformed(f"expected {len(shape) - 1} values, got {v!r}"[:200])
            return [enc(s, x) for s, x in zip(shape[1:], v)]
        if kind == "opt":         # an optional part of a bigger value
            return [] if v is None else [enc(shape[1], v)]
        if kind == "dict":
            return {k: enc(s, v[k]) for k, s in shape[1].items()}
        raise AssertionError(shape)
    if callable(shape):
        return shape(v)
    if shape == "num":
        return num(v)
    if shape == "pt":
        return pt(v)
    if shape == "seg":
        return seq(v, pt)
    if shape == "contour":
        return seq(v, lambda s: seq(s, pt))
    if shape == "contours":
        return seq(v, lambda c: seq(c, lambda s: seq(s, pt)))
    if shape == "rect":
        return rect(v)
    if shape == "curve":
        return curve(v)
    if shape == "matrix":
        return seq(v, lambda s: seq(s, num))
    if shape == "bool":
        if isinstance(v, bool):
            return v
        raise Malformed(f"expected True or False, got {v!r}"[:200])
    if shape == "int":
        if isinstance(v, int) and not isinstance(v, bool) and -LIM < v < LIM:
            return int(v)
        raise Malformed(f"expected an integer, got {v!r}"[:200])
    if shape == "str":
        if isinstance(v, str):
            return v
        raise Malformed(f"expected a string, got {v!r}"[:200])
    if shape == "none":
        if v is None:
            return 0
        raise Malformed(f"expected None, got {v!r}"[:200])
    if shape == "any":
        return 0
    raise AssertionError(shape)
