"""
Decide one property.

    python -m harness.check PROPERTY [quick|thorough]

Runs the exhaustive models and the suites of the property, and reports.
"""
import collections
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import replay, run_shard

HERE = run_shard.HERE
SHARDS = 8

# exhaustive models (module, configuration) of each property
MODELS = {
    "C22": [("SofaUpdateMC", "SofaUpdateMC", ("quick", "thorough"))],
    "C26": [("SofaCongruencyMC", "SofaCongruencyMC", ("quick", "thorough"))],
    "C29": [("SofaStreamsMC", "SofaStreamsMC", ("quick",)),
            ("SofaStreamsMC", "SofaStreamsMC6", ("thorough",))],
    "C30": [("SofaWriteMC", "SofaWriteMC", ("quick",)),
            ("SofaWriteMC", "SofaWriteMC4", ("thorough",))]}
# suites that are run in addition to the one that is named like the property
MORE = {"C23": ["C23E"]}
ASSUMPTIONS = [
    "conventions: the data base of /verif/db (the folder with the official "
    "conventions is empty in the pinned commit)",
    "TLC, the JSON modules of the TLA+ community modules, numpy and netCDF4 "
    "(used by the harness to look at values and files) work correctly",
    "numbers are compared as canonical texts of their values (tolerances are "
    "computed by the harness with exact numbers)",
]


def run_models(prop, tier, log):
    out = []
    for module, config, tiers in MODELS.get(prop, ()):
        if tier not in tiers:
            continue
        code, text = run_shard.tlc(
            "", "", spec=module, config=config, memory="8g",
            args=("-deadlock",), workers="8")
        states, transitions = run_shard.states(text)
        ok = code == 0 and "No error has been found" in text
        out.append({"module": module, "config": config, "ok": ok,
                    "states": states, "transitions": transitions})
        log(f"model {module}/{config}: {'ok' if ok else 'FAILED'}, "
            f"{states} states, {transitions} transitions")
        if not ok:
            log(text[-3000:])
    return out


def run_suite(suite, tier, seed, root, source=""):
    procs, env = [], dict(os.environ, TMPDIR=root, SOFA_SOURCE=source)
    for k in range(SHARDS):
        out = os.path.join(root, f"{suite}.{k}")
        log = open(out + ".log", "w")
        procs.append((k, out, log, subprocess.Popen(
            [sys.executable, "-W", "ignore", "-m", "harness.run_shard",
             suite, tier, str(seed), str(k), str(SHARDS), out],
            cwd=HERE, stdout=log, stderr=subprocess.STDOUT, env=env)))
    results = []
    for k, out, log, p in procs:
        code = p.wait()
        log.close()
        if os.path.isfile(out + ".json"):
            with open(out + ".json") as f:
                r = json.load(f)
        else:
            with open(out + ".log") as f:
                r = {"suite": suite, "shard": k, "items": 0, "events": {},
                     "violations": [], "labels": [], "errors": [
                         {"label": "process", "error":
                          f"exit code {code}\n" + f.read()[-3000:]}]}
        r["out"] = out
        results.append(r)
    return results


def findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.isfile(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def matches(known, v):
    """Known findings are identified by history, clause and entries."""
    return (known["context"] == v["ctx"] and known["op"] == v["op"]
            and set(v["c"]) <= set(known["clauses"]))


def event(r, v):
    with open(r["out"] + ".ndjson") as f:
        for k, line in enumerate(f, 1):
            if k == v["l"]:
                return json.loads(line)


def clip(x, n=1500):
    text = json.dumps(x)
    return x if len(text) <= n else text[:n] + " ..."


def sample(results):
    """The first events of a history of this run."""
    for r in results:
        try:
            with open(r["out"] + ".ndjson") as f:
                lines = [json.loads(line) for line in f]
        except OSError:
            continue
        if not lines or not r["labels"]:
            continue
        ctx = r["labels"][len(r["labels"]) // 2]
        return {"history": ctx, "events": [
            {k: clip(e.get(k), 300) for k in ("op", "id", "a", "exc", "out")
             if k in e} for e in lines if e.get("ctx") == ctx][:12]}
    return {}


def main(prop, tier="quick"):
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    evidence = os.path.join(HERE, "evidence")
    os.makedirs(evidence, exist_ok=True)
    replayed = os.path.join(evidence, prop + ".replay.json")
    if os.path.exists(replayed):
        os.remove(replayed)
    root = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    log = print
    bad, known = [], []
    results = []
    try:
        models = run_models(prop, tier, log)
        for m in models:
            if not m["ok"]:
                bad.append({"suite": "model", "context": m["module"],
                            "clauses": ["model"]})
        if prop in replay.CHECKS and (
                tier != "quick" or prop not in replay.EDGES):
            m, error = replay.explore(prop, root, 3 if tier == "quick" else 5)
            models.append(m)
            log(f"model {m['module']} {m['config']}: {m['states']} states")
            if not m["ok"]:
                log(error)
                bad.append({"suite": "model", "context": m["module"],
                            "clauses": ["model"]})
        for suite in [prop] + MORE.get(prop, []):
            results += run_suite(suite, tier, seed, root)
        if prop in replay.EDGES:
            m, source, error = replay.generate(prop, tier, seed, root)
            models.append(m)
            log(f"model {m['module']} {m['config']}: {m['states']} states, "
                f"{m['edges']} transitions to replay, {m['replayed']} taken")
            if not m["ok"]:
                log(error)
                bad.append({"suite": "model", "context": m["module"],
                            "clauses": ["model"]})
            results += run_suite("replay " + prop, tier, seed, root, source)
        if prop in replay.WALKS:
            results += run_suite("walks " + prop, tier, seed, root)
        for r in results:
            for e in r["errors"]:
                # A call that the specification allows must not break the
                # observation of the objects and files.
                bad.append({"suite": r["suite"], "context": e["label"],
                            "clauses": ["observation"],
                            "error": e["error"]})
            for v in r["violations"]:
                k = next((k for k in findings(prop) if matches(k, v)), None)
                if k:
                    known.append(k["what"])
                    continue
                bad.append({"suite": r["suite"], "context": v["ctx"],
                            "clauses": v["c"], "op": v["op"], "id": v["id"],
                            "differences": clip(v["diff"]),
                            "event": None if len(bad) > 20
                            else clip(event(r, v), 6000)})
        events = collections.Counter()
        for r in results:
            events.update(r["events"])
        cover = {
            "states": sum(m["states"] for m in models)
            + sum(r.get("states", 0) for r in results),
            "transitions": sum(m["transitions"] for m in models)
            + sum(r.get("transitions", 0) for r in results),
            "traces_validated_against_impl": sum(r["items"]
                                                 for r in results),
            "calls_by_kind": dict(events),
            "models": models,
            "histories": sum(r["items"] for r in results),
            "samples": [sample(results)],
        }
        cover.pop("histories")
        with open(os.path.join(evidence, prop + ".json"), "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed,
                       "level": "model_checking", "coverage": cover,
                       "assumptions": ASSUMPTIONS,
                       "wall_s": round(time.time() - start, 2),
                       "violations": len(bad)}, f, indent=1)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    for k in sorted(set(known)):
        print(f"KNOWN-FINDING: property={prop} {k}")
    print(f"{prop} {tier} seed {seed}: {cover['states']} states, "
          f"{cover['traces_validated_against_impl']} histories, "
          f"{sum(events.values())} calls, {len(bad)} violations, "
          f"{time.time() - start:.1f} s")
    if bad:
        with open(replayed, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed,
                       "how": "VERIF_SEED=%d bin/check %s %s" % (
                           seed, prop, tier), "violations": bad[:200]},
                      f, indent=1)
        clauses = collections.Counter(c for b in bad for c in b["clauses"])
        for c, n in clauses.most_common(10):
            b = next(b for b in bad if c in b["clauses"])
            print(f"  {n} x {c}: first in {b['context']}")
        print(f"VIOLATION property={prop} replay={replayed}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(*sys.argv[1:]))
