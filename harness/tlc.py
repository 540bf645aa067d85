"""Running TLC, and reading what it says."""
import os
import re
import resource
import shutil
import subprocess
import tempfile
from time import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = (
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
)


def _no_limit():
    _, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


class TlcError(Exception):
    """TLC did not finish its job: the check has no answer."""


class Result:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(
            r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left",
            out,
        )
        self.generated, self.distinct, self.left = (
            [int(x.replace(",", "")) for x in m[-1]] if m else (0, 0, -1)
        )
        self.finished = "Model checking completed. No error has been found." in out
        d = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(d[-1]) if d else 0

    def error_text(self):
        i = self.out.find("Error:")
        return self.out[i : i + 4000] if i >= 0 else self.out[-4000:]


def run(module, cfg=None, env=None, workers=8, timeout=600, heap="6g", extra=()):
    """Run TLC on spec/<module>.tla in a scratch metadir; returns a Result."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    e = dict(os.environ)
    e.update(env or {})
    cmd = [
        "java",
        "-XX:+UseParallelGC",
        "-Xmx" + heap,
        "-Xss64m",
        "-cp",
        JARS,
        "tlc2.TLC",
        "-metadir",
        meta,
        "-noGenerateSpecTE",
        "-workers",
        str(workers),
        "-config",
        (cfg or module) + ".cfg",
        *extra,
        module + ".tla",
    ]
    t = time()
    try:
        p = subprocess.run(
            cmd,
            cwd=SPEC,
            env=e,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=timeout,
            text=True,
            errors="replace",
            preexec_fn=_no_limit,
        )
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out = x.stdout or ""
        if isinstance(out, bytes):
            out = out.decode("utf-8", "replace")
        rc = -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Result(out, rc, time() - t)
