"""worker.py IN OUT: applies a function of this folder to a list of arguments (see util.spread)"""
import importlib, os, pickle, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import util

with open(sys.argv[1], "rb") as f:
    module, name, wrap, args = pickle.load(f)
fn = getattr(importlib.import_module(module), name)
res = [util._call((fn, a)) if wrap else fn(a) for a in args]
with open(sys.argv[2], "wb") as f:
    pickle.dump(res, f)
