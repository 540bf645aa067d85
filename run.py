#!/opt/venv/bin/python
"""run.py check <property> | run.py replay <file> | run.py setup"""
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from harness import checks, checks_client, checks_links, checks_secrets, links, record, tlc, validate  # noqa: E402
from harness.check import Check  # noqa: E402


def main():
    if sys.argv[1] == "setup":
        r = tlc.run("MCEscape", timeout=300)
        print("TLC works:", r.finished)
        return 0 if r.finished else 2
    if sys.argv[1] == "replay":
        with open(sys.argv[2]) as f:
            v = json.load(f)
        rep = validate.validate(v["module"], [v["history"]])
        print(v["clause"], "at call", v["call"], "->", rep.bad and rep.bad[0][1:])
        return 1 if rep.bad else 0
    pid = sys.argv[2]
    links.install()
    record.setup()
    c = Check(pid, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
    try:
        checks.CHECKS[pid](c)
    except Exception:
        if not c.rescue():
            traceback.print_exc()
            return 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
