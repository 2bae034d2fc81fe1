#!/usr/bin/env python3
"""check.py <property> [quick|thorough] : decides one property for the code in /repo."""
import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "lib"), os.path.join(here, "checks")]
sys.dont_write_bytecode = True
import vf

def lazy(mod):
    return lambda ctx: importlib.import_module(mod).run(ctx)
mods = [f[:-3] for f in os.listdir(os.path.join(here, "checks")) if f.startswith("p") and f.endswith(".py")]
vf.main({m.upper(): lazy(m) for m in mods})
