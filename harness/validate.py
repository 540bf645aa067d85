"""Handing recorded histories to TLC and collecting a verdict for every one of them."""
import json
import os
import re
import tempfile

from . import tlc

VERDICT = re.compile(r'<<\s*"VERDICT",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>')


class Report:
    def __init__(self):
        self.histories = self.events = self.states = self.transitions = 0
        self.free = 0
        self.bad = []  # (history, event number, clause)
        self.wall = 0.0

    def merge(self, o):
        for k in ("histories", "events", "states", "transitions", "free", "wall"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.bad += o.bad


def performed(h):
    """The part of a history that was performed (see record.HANGS)."""
    for i, e in enumerate(h["ev"]):
        if e.get("out", {}).get("k") == "skip":
            return dict(h, ev=h["ev"][:i])
    return h


def validate(module, histories, ignore=(), workers=8, timeout=800, chunk=7000):
    """Every history gets exactly one verdict from TLC, or the check fails."""
    rep = Report()
    histories = [h for h in map(performed, histories) if h["ev"]]
    if not histories:
        return rep
    if len(histories) > chunk:
        for i in range(0, len(histories), chunk):
            rep.merge(validate(module, histories[i : i + chunk], ignore, workers, timeout, chunk))
        return rep
    fd, path = tempfile.mkstemp(prefix="trace-", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump({"h": histories, "ignore": list(ignore)}, f)
    try:
        r = tlc.run(module, env={"TRACE": path}, workers=workers, timeout=timeout)
    finally:
        os.unlink(path)
    got = {}
    for m in VERDICT.finditer(r.out):
        t, n, v = int(m.group(1)), int(m.group(2)), m.group(3)
        if t in got and got[t] != (n, v):
            raise tlc.TlcError(f"two verdicts for history {t}")
        got[t] = (n, v)
    if not r.finished or len(got) != len(histories):
        raise tlc.TlcError(
            f"{module}: TLC gave {len(got)} verdicts for {len(histories)} histories\n"
            + r.error_text()
        )
    for t, (n, v) in sorted(got.items()):
        h = histories[t - 1]
        if v == "free":
            rep.free += 1
        elif v != "ok":
            rep.bad.append((h, n, v))
        elif n != len(h["ev"]):
            raise tlc.TlcError(f"history {t}: {n} of {len(h['ev'])} events consumed")
    rep.histories = len(histories)
    rep.events = sum(len(h["ev"]) for h in histories)
    rep.states, rep.transitions, rep.wall = r.distinct, r.generated, r.wall
    return rep
