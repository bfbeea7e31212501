"""
Run one share of a suite and validate what was recorded.

    python -m harness.run_shard SUITE TIER SEED SHARD SHARDS OUT

Writes the trace OUT.ndjson, and OUT.json with the findings.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = ("/opt/veriftools/tla/tla2tools.jar:"
        "/opt/veriftools/tla/CommunityModules-deps.jar")


def tlc(trace, db, memory="3g", spec="SofaTrace", config=None, env=(),
        args=(), workers="1", gc="Serial"):
    """Run TLC, returns (return code, output)."""
    meta = tempfile.mkdtemp(prefix="tlc")
    try:
        run = subprocess.run(
            ["java", "-Xmx" + memory, f"-XX:+Use{gc}GC",
             "-XX:TieredStopAtLevel=4", "-Xss64m",
             "-Djava.io.tmpdir=" + meta, "-cp", JARS,
             "tlc2.TLC", "-noGenerateSpecTE", "-workers", workers,
             "-metadir", meta, *args, "-config",
             (config or spec) + ".cfg", spec + ".tla"],
            cwd=os.path.join(HERE, "spec"), text=True,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            env=dict(os.environ, SOFA_DB=db, SOFA_TRACE=trace, **dict(env)))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return run.returncode, run.stdout


def printed(output, tag):
    """Values that the specification printed as <<tag, "json">>."""
    out = []
    for line in output.split("\n"):
        if line.startswith(f'<<"{tag}", "'):
            text = line[len(tag) + 6:].rstrip()
            text = text[1:-3] if text.endswith('">>') else text
            out.append(json.loads(
                text.replace('\\"', '"').replace("\\\\", "\\")))
    return out


def states(output):
    """Distinct states and transitions that TLC explored."""
    found = re.findall(
        r"(\d+) states generated, (\d+) distinct states found", output)
    return [int(found[-1][1]), int(found[-1][0]) - 1] if found else [0, 0]


def validate(trace, db, stats=None, **kw):
    """Violations found in a trace, number of events, error."""
    n = sum(1 for _ in open(trace))
    code, output = tlc(trace, db, **kw)
    if stats is not None:
        stats["states"], stats["transitions"] = states(output)
    found = printed(output, "VIOL")
    error = ""
    if f'<<"DONE", {n}>>' not in output:
        lines = [ln for ln in output.split("\n")
                 if not ln.startswith("<<\"VIOL")]
        error = "\n".join(lines)[-3000:]
    return found, n, error


def main(suite, tier, seed, shard, shards, out):
    from . import dbjson, env
    from db import dbgen
    shard, shards = int(shard), int(shards)
    start = time.time()
    result = {"suite": suite, "items": 0, "events": {}, "violations": [],
              "errors": [], "labels": [], "shard": shard}
    root = tempfile.mkdtemp(prefix="sofar-check-")
    try:
        db = dbgen.realistic()
        if suite == "C23E":
            db = dbgen.from_sources(db)
        source = os.environ.get("SOFA_SOURCE", "")
        if suite.startswith("replay"):
            from db import mini
            db = mini.mini()
        dbgen.write_db(os.path.join(root, "sofar", "sofa_conventions"), db)
        with open(out + ".db", "w") as f:
            json.dump(dbjson.export(db), f)
        try:
            sf = env.load(root)
        except Exception:  # noqa: BLE001
            result["errors"].append(
                {"label": "import", "error": traceback.format_exc()[-1500:]})
            sf = None
        if sf is not None:
            from . import update
            own = suite in update.SUITES
            if suite.startswith("replay"):
                from . import replay
                replay.record(sf, root, shard, shards, out, result, source)
            elif suite.startswith("walks"):
                from . import replay
                replay.record_walks(sf, root, suite.split()[1], tier,
                                    int(seed), shard, out, result)
            elif own:
                update.record(sf, root, db, suite, tier, seed, shard, shards,
                              out, result)
            else:
                if suite == "C23E":
                    update.install(sf, root, db)
                record(sf, root, db, suite, tier, seed, shard, shards, out,
                       result)
            result["seconds_run"] = time.time() - start
            found, n, error = validate(out + ".ndjson", out + ".db",
                                       stats=result, spec="SofaUpdateTrace"
                                       if own else "SofaTrace")
            result["violations"] = found
            result["validated"] = n
            if error:
                result["errors"].append({"label": "validation",
                                         "error": error})
    finally:
        shutil.rmtree(root, ignore_errors=True)
    result["seconds"] = time.time() - start
    with open(out + ".json", "w") as f:
        json.dump(result, f)


def record(sf, root, db, suite, tier, seed, shard, shards, out, result):
    from . import gen, session, suites
    with open(out + ".ndjson", "w") as f:
        s = session.Session(sf, root, f)
        for k, (label, run) in enumerate(suites.items(suite, db)):
            if k % shards != shard:
                continue
            rng = gen.seeded(suite, tier, seed, label)
            g = gen.Gen(s, db, rng)
            c = suites.Context(s, g, rng, tier)
            s.context = label
            result["items"] += 1
            result["labels"].append(label)
            try:
                run(c)
            except Exception:  # noqa: BLE001
                result["errors"].append(
                    {"label": label, "error": traceback.format_exc()[-1500:],
                     "event": s.n})
            s.cleanup()
        s.context = "end"
        s.close()
        result["events"] = s.counts


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    main(*sys.argv[1:])
