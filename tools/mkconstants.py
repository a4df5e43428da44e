"""Write lib/constants.json from /repo (the pinned tree)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from lib import focus  # noqa: E402

known = focus.constants(os.environ.get("VERIF_REPO", "/repo"))
with open(os.path.join(HERE, "lib", "constants.json"), "w", encoding="utf-8") as f:
    json.dump({k: {str(c): n for c, n in sorted(v.items())} for k, v in sorted(known.items())},
              f, indent=0)
