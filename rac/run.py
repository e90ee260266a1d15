"""python run.py ID --seed N --tier quick|thorough --budget S --out FILE [--known FILE]
   python run.py ID --replay FILE     (re-executes one failing input; exit 1 if it fails)"""
import argparse
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--seed", default="1")
ap.add_argument("--tier", default="quick")
ap.add_argument("--budget", type=float, default=60)
ap.add_argument("--out")
ap.add_argument("--known")
ap.add_argument("--replay")
ap.add_argument("--shard", default="0/1")
a = ap.parse_args()
sys.argv = sys.argv[:1]
from rac import base  # noqa: E402

mod = importlib.import_module("rac." + a.prop.lower())
if a.replay:
    d = json.load(open(a.replay))
    base.boot()
    v, err = base.execute(mod, d.get("scenario", d))
    for k, m in v:
        print(k, ":", m)
    if err:
        print("harness error:", err)
    os._exit(1 if v else 0)
known = set(json.load(open(a.known))) if a.known else set()
base.main(mod, a.prop, a.seed, a.tier, a.budget, a.out, known, *map(int, a.shard.split("/")))
sys.stdout.flush()
os._exit(0)
