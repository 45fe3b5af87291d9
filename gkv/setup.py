"""Warm the build caches (optional: every check builds what it needs)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, config
mods = [p["module"] for p in config.PROPS.values() if p["module"] != "c99" and os.path.exists(f"{build.HOME}/proofs/src/{p['module']}.rs")]
try:
    build.all_builds(mods[0], mods[0])
except Exception as e:
    print("setup: " + str(e)[-2000:])
