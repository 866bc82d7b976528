"""driver entry: drive.py DRIVER OUTDIR SHARDS TIER [GENFILE...] (run in a scratch cwd holding config.toml)"""
import importlib
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import load

name, outdir, shards, tier, *gens = sys.argv[1:]
load.boot()
rec = load.Rec(outdir, int(shards))
modname, _, fn = name.partition(":")
m = importlib.import_module("drv_" + modname)
out = sys.stdout
sys.stdout = open(os.devnull, "w")
try:
    getattr(m, fn or "run")(rec, tier, gens)
finally:
    rec.close()     # what was recorded before a driver broke is still judged
