"""Runs the code under test and records a trace: python -m vf.driver --prop C01 ..."""
import argparse
import importlib
import json
import os
import sys

from . import rec as R
from .gen import Gen


class Driver:
    """What a driver of a property gets."""

    def __init__(self, a, rec):
        self.prop, self.shard, self.shards, self.tier = a.prop, a.shard, a.shards, a.tier
        self.seed = a.seed
        self.rec = rec
        self.g = Gen(f"{a.seed}:{a.prop}:{a.shard}", a.repo)
        self.r = self.g.r
        self.behaviours = []
        if a.beh and os.path.exists(a.beh):
            with open(a.beh) as f:
                self.behaviours = [json.loads(l) for i, l in enumerate(f) if i % a.shards == a.shard]

    def n(self, quick, thorough=None):
        """The number of cases of this shard for a total number per tier."""
        total = quick if self.tier == "quick" else (thorough if thorough is not None else quick * 12)
        return max(1, total // self.shards)

    def mine(self, it):
        """The elements of an enumeration that belong to this shard."""
        for i, x in enumerate(it):
            if i % self.shards == self.shard:
                yield x

    def lib(self, name):
        """A module of the library; a module that cannot be imported is an event of the trace."""
        rec = self.rec
        r = rec.run(lambda: importlib.import_module("PathLib." + name), "any", timeout=20)
        rec.emit("import", {"module": name}, r, f"import PathLib.{name}")
        rec.fresh = True
        if not r.ok:
            raise R.StopDriver()
        return r.value


def main():
    p = argparse.ArgumentParser()
    p.add_argument("--prop", required=True)
    p.add_argument("--shard", type=int, default=0)
    p.add_argument("--shards", type=int, default=1)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--tier", default="quick")
    p.add_argument("--out", required=True)
    p.add_argument("--beh", default="")
    p.add_argument("--repo", default="/repo")
    p.add_argument("--budget", type=float, default=120)
    a = p.parse_args()
    rec = R.Recorder(a.out, a.budget)
    try:
        d = Driver(a, rec)
        importlib.import_module("drivers." + a.prop.lower()).drive(d)
    except R.StopDriver:
        pass
    except Exception:
        # reported unless the trace recorded so far has a violation
        import traceback
        with open(a.out + ".err", "w") as f:
            traceback.print_exc(file=f)
    finally:
        rec.close()


if __name__ == "__main__":
    main()
