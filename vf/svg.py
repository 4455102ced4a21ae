"""Splits SVG path data into command letters and exact numbers."""
import re
from fractions import Fraction

from . import enc as E

TOKEN = re.compile(r"[\s,]*(?:([MLHVCSQTAZmlhvcsqtaz])|([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?))")


def number(s):
    # the text of a float stands for that float
    return E.num(int(s) if re.fullmatch(r"[+-]?\d+", s) else float(s))


def groups(text):
    """[{"c": letter, "n": [numbers]}]; a letter "?" for what is not path data."""
    if not isinstance(text, str):
        raise E.Malformed(f"expected path data, got {text!r}"[:200])
    out, pos = [], 0
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            if text[pos:].strip(" \t\n,"):
                out.append({"c": "?", "n": []})
            break
        if m.group(1):
            out.append({"c": m.group(1), "n": []})
        elif out:
            out[-1]["n"].append(number(m.group(2)))
        else:
            out.append({"c": "?", "n": []})
        pos = m.end()
    return out
