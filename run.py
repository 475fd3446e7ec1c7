import argparse
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from symx import engine  # noqa: E402

p = argparse.ArgumentParser()
p.add_argument("property")
p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
p.add_argument("--only", nargs="*")
p.add_argument("--replay")
p.add_argument("-v", action="store_true")
a = p.parse_args()
if a.replay:
    sys.exit(engine.replay_main([a.replay]))
sys.exit(engine.main(a.property, "thorough" if a.tier == "thorough" else "quick", only=a.only, verbose=a.v))
