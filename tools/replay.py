#!/usr/bin/env python3
"""Runs the scenario of a violation again on the current /repo and validates its trace:
replay.py out/C07-quick-1-w3.json. Exit 1 if the specification refuses it still, 0 if not."""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine


class Recorded:
    """A scenario from its text and the trace recorded with it."""

    def __init__(self, d):
        t = d["trace"]
        self.id, self.u, self.den, self.data, self.hs, self.ev = t["id"], t["u"], t["den"], t["data"], t["hs"], t["ev"]
        n = len(self.ev)
        self._text = "".join(l + "\n" for l in d["scenario"].splitlines()
                             if not l.startswith("O ") or int(l.split()[1]) <= n)

    def text(self):
        return self._text

    def trace(self):
        return json.dumps(dict(id=self.id, u=self.u, den=self.den, data=self.data, hs=self.hs, ev=self.ev))


def main():
    d = json.load(open(sys.argv[1]))
    engine.build()
    work = tempfile.mkdtemp(prefix="qt-replay-")
    try:
        s = Recorded(d)
        engine.execute([s], work)
        _, v = engine.validate([s], d["property"], work)
        if not v:
            print("allowed now")
            return 0
        e = s.ev[v[1] - 1]
        print(f"refused: event {v[1]}")
        print(json.dumps(e))
        print(json.dumps(s.hs[e["h"] - 1]) if e["h"] else "")
        print(f"VIOLATION property={d['property']} replay={sys.argv[1]}")
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
