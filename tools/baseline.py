"""Write down the literals of the library's source (see harness/focus.py)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import focus

lit = focus.literals(os.path.join(sys.argv[1] if len(sys.argv) > 1 else "/repo", "elgas"))
with open(focus.BASELINE, "w") as f:
    json.dump({k: dict(sorted(v.items())) for k, v in sorted(lit.items())}, f, indent=0)
    f.write("\n")
