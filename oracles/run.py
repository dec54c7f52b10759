"""run.py <property> <seed> <tier> <out> [seconds]: concrete cases on the real code."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

from oracles.lib import Oracle, Stop

pid, seed, tier, out = sys.argv[1:5]
secs = float(sys.argv[5]) if len(sys.argv) > 5 else 100
o = Oracle(pid, int(seed), tier == "thorough", out, secs)
err = ""
try:
    m = importlib.import_module("oracles." + pid.lower())
    m.run(o)
except Stop:
    pass
except BaseException:
    err = traceback.format_exc()[-3000:]
o.finish(err)
# library objects may misbehave while the interpreter shuts down
sys.stdout.flush()
os._exit(0)
