"""
Which lines of sofar does a suite execute? (developer's tool)

    python tools/cover.py FOLDER SUITE TIER SEED SHARD SHARDS
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from harness import run_shard  # noqa: E402

lines = set()
M = sys.monitoring
M.use_tool_id(M.COVERAGE_ID, "cover")


def hit(code, line):
    name = code.co_filename
    if "/sofar/" in name and "/site-packages/" not in name:
        lines.add((os.path.basename(name), line))
    return M.DISABLE


M.register_callback(M.COVERAGE_ID, M.events.LINE, hit)
M.set_events(M.COVERAGE_ID, M.events.LINE)
run_shard.validate = lambda *a, **k: ([], 0, "")
folder, args = sys.argv[1], sys.argv[2:]
out = os.path.join(folder, "-".join(args).replace(" ", "_"))
run_shard.main(*args, out)
M.set_events(M.COVERAGE_ID, 0)
for end in (".ndjson", ".db"):
    if os.path.exists(out + end):
        os.remove(out + end)
with open(out + ".lines", "w") as f:
    json.dump(sorted(lines), f)
