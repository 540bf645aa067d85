"""Values worth trying more often: literals of the source that are not in the source as it was.

A fuzzer's dictionary.  tools/baseline.py writes down the literals of /repo/elgas once
(harness/baseline_literals.json); at run time the literals of the tree under test that are not
among them are put into the inputs the checks generate - sizes, contents, counts, addresses,
times.  They decide nothing: what the code does with these inputs is judged by the
specification like everything else.  On an unchanged tree there are none.
"""
import ast
import collections
import json
import os

BASELINE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline_literals.json")


def literals(root):
    """{file: Counter of literals} of all modules below root."""
    out = {}
    for base, _, names in os.walk(root):
        for n in sorted(names):
            if not n.endswith(".py"):
                continue
            path = os.path.join(base, n)
            try:
                with open(path, encoding="utf-8") as f:
                    tree = ast.parse(f.read())
            except (OSError, SyntaxError, ValueError):
                continue
            docs = {
                id(x.value)
                for x in ast.walk(tree)
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)
            }
            c = collections.Counter()
            for x in ast.walk(tree):
                if isinstance(x, ast.Constant) and id(x) not in docs:
                    v = x.value
                    if isinstance(v, bool) or v is None or v is Ellipsis:
                        continue
                    if isinstance(v, (int, float, str, bytes)):
                        c[repr(v)] += 1
            out[os.path.relpath(path, root)] = c
    return out


def new_literals(root):
    try:
        with open(BASELINE) as f:
            base = json.load(f)
    except (OSError, ValueError):
        return []
    out = []
    for name, c in sorted(literals(root).items()):
        was = base.get(name, {})
        for r, k in sorted(c.items()):
            if k > was.get(r, 0):
                out.append(ast.literal_eval(r))
    return out


class Focus:
    def __init__(self, values):
        ints, blobs, self.floats = [], [], []
        for v in values:
            if isinstance(v, (int, float)) and v == v and abs(v) < 1e30:
                self.floats += [float(v), -float(v)]
            if isinstance(v, float) and v == v and abs(v) < 1e9:
                v = int(v)
            if isinstance(v, int) and abs(v) < 1 << 64:
                ints.append(abs(v))
            elif isinstance(v, bytes) and 0 < len(v) <= 64:
                blobs.append(v)
            elif isinstance(v, str) and 0 < len(v) <= 16:
                try:
                    blobs.append(v.encode("latin-1"))
                except UnicodeEncodeError:
                    pass
        for b in blobs:
            ints += list(b)
        self.blobs = sorted(set(blobs))
        self.literal = sorted(set(ints))
        near = set()
        for n in self.literal:
            near |= {max(0, n - 1), n, n + 1}
            if n > 1:
                near |= {2 * n, n // 2}
        self.near = sorted(near)
        self.bytes_ = sorted({n for n in self.near if n < 256} | {n & 255 for n in self.literal if n})
        if self.literal:
            self.bytes_ += [n for n in self.literal if n < 256] * 2

    def __bool__(self):
        return bool(self.literal or self.blobs)

    # every method gives None when there is nothing to say
    def number(self, rnd, limit=None, p=0.35):
        """A number below limit."""
        if not self.near or rnd.random() >= p:
            return None
        c = [n for n in self.near if limit is None or n < limit]
        lit = [n for n in self.literal if limit is None or n < limit]
        if not c:
            return None
        return rnd.choice(lit) if lit and rnd.random() < 0.5 else rnd.choice(c)

    def byte(self, rnd, p=0.15):
        if not self.bytes_ or rnd.random() >= p:
            return None
        return rnd.choice(self.bytes_)

    def blob(self, rnd, p=0.2):
        if not self.blobs or rnd.random() >= p:
            return None
        return rnd.choice(self.blobs)


_focus = None


def get():
    global _focus
    if _focus is None:
        from . import record

        _focus = Focus(new_literals(os.path.join(record.REPO, "elgas")))
    return _focus
