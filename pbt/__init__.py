"""Property-based testing of jaxopt: see ../DESIGN.md."""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
for _p in (os.path.join(ROOT, "vendor"), REPO):
  if _p not in sys.path:
    sys.path.insert(0, _p)
