"""Records calls of the code under test as events for the TLA+ trace specifications."""
import copy
import decimal
import json
import os
import resource
import signal
import sys
import time

from . import enc as E


class CallTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CallTimeout()


class StopDriver(Exception):
    """Enough was recorded, or the code hangs."""


class Result:
    """The outcome of a call: k is "ok", "none", "exc", "timeout", "malformed" or "nonfinite"."""
    __slots__ = "k", "value", "enc", "text"

    def __init__(self, k, value=None, enc=0, text=""):
        self.k, self.value, self.enc, self.text = k, value, enc, text

    @property
    def ok(self):
        return self.k == "ok"


class Recorder:
    def __init__(self, path, budget_s, timeout=5.0):
        self.f = open(path, "w")
        self.src = open(path + ".src", "w")
        self.n = 0
        self.session = 0
        self.fresh = True
        self.timeout = timeout
        self.timeouts = 0
        self.deadline = time.monotonic() + budget_s
        signal.signal(signal.SIGALRM, _alarm)
        # a runaway call must not take the sandbox down
        lim = 2 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))

    def new(self):
        """Start a new session: the state of the specification is its initial state."""
        self.fresh = True
        self.session += 1
        if time.monotonic() > self.deadline:
            raise StopDriver()

    def run(self, fn, shape, timeout=None):
        """Call fn and classify its outcome, without recording anything."""
        prec = decimal.getcontext().prec
        try:
            signal.setitimer(signal.ITIMER_REAL, timeout or self.timeout)
            try:
                v = fn()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except CallTimeout:
            self.timeouts += 1
            decimal.getcontext().prec = prec
            return Result("timeout", text="no result in time")
        except (Exception, SystemExit, GeneratorExit, KeyboardInterrupt) as e:
            return Result("exc", text=f"{type(e).__name__}: {e}"[:300])
        try:
            if v is None and shape != "none" and shape != "any":
                return Result("none", text="None")
            return Result("ok", v, E.enc(shape, v))
        except E.Malformed as e:
            return Result("malformed", v, text=str(e))
        except E.NonFinite as e:
            return Result("nonfinite", v, text=str(e))
        except (Exception) as e:
            return Result("malformed", v, text=f"{type(e).__name__}: {e}"[:300])

    def call(self, op, args, fn, shape, src=None, inputs=None, timeout=None, **extra):
        """
        Call fn, whose result must have the given shape, and record the event.
        args: encoded arguments; inputs: Python objects which must not be modified.
        extra: further fields, or a function of the result which gives them.
        """
        before = copy.deepcopy(inputs) if inputs is not None else None
        r = self.run(fn, shape, timeout)
        mut = inputs is not None and not same(before, inputs)
        self.emit(op, args, r, src, mut, **extra)
        return r

    def emit(self, op, args, r, src=None, mut=False, **extra):
        ev = {"i": self.n, "s": self.session, "new": self.fresh, "op": op, "a": args,
              "k": r.k, "r": r.enc, "mut": bool(mut)}
        ev.update(extra)
        self.f.write(json.dumps(ev, separators=(",", ":")) + "\n")
        text = (src() if callable(src) else src) if src else op
        self.src.write(json.dumps({"i": self.n, "s": self.session, "op": op, "call": text, "k": r.k,
                                   "result": (show(r.value) if r.k in ("ok", "malformed", "nonfinite") else "")[:2000], "text": r.text}) + "\n")
        self.n += 1
        self.fresh = False
        if self.timeouts >= 3:
            raise StopDriver()

    def close(self):
        self.f.close()
        self.src.close()


def show(v):
    """A readable rendering of a result."""
    try:
        if isinstance(v, (list, tuple)):
            return "[" + ", ".join(show(x) for x in v) + "]" if not all(isinstance(x, (int, float)) for x in v) else repr(tuple(v))
        if isinstance(v, dict):
            return "{" + ", ".join(f"{k!r}: {show(x)}" for k, x in v.items()) + "}"
        if hasattr(v, "controlPoints"):
            return f"Bezier({v.controlPoints})"
        if hasattr(v, "left"):
            return str(v)
        return repr(v)
    except Exception:
        return "?"


def same(a, b):
    """Deep equality of values and of their types (a list does not equal a tuple, 1 equals 1.0)."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if hasattr(a, "controlPoints"):
        return same(list(a.controlPoints), list(b.controlPoints))
    if hasattr(a, "left") and hasattr(a, "top"):
        return (a.left, a.bottom, a.right, a.top) == (b.left, b.bottom, b.right, b.top)
    if hasattr(a, "transform"):
        return same(a.transform, b.transform)
    return a == b
