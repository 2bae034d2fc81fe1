#!/usr/bin/env python3
"""setup_cmd: nothing needs building ahead (checks build from /repo themselves); verifies the tools are there."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
missing = [t for t in ("java", "g++", "ar") if not shutil.which(t)]
missing += [f for f in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar") if not os.path.exists(f)]
print("missing: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)
