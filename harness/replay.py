"""
Replay behaviours that TLC generates from the specification.

Edges: every transition of the graph that SofarEdges explores (up to a number
of calls) is made on the real library, starting from the objects and files that
its history gives.  Walks: long random behaviours (SofarWalks).
"""
import json
import os
import random
import re
import shutil
import traceback

from .values import realise, unescape

EVERY = ["edit", "add", "verify", "files", "upgrade", "copy", "query"]
EDIT = ["edit", "add", "upgrade", "files", "copy"]


def _cfg(part, depth, final=None, spec="ESpec", checks=()):
    def sets(x):
        return "{" + ", ".join(f'"{v}"' for v in x) + "}"
    return (f"SPECIFICATION {spec}\nCONSTANTS\n  Depth = {depth}\n"
            f"  Part = {sets(part)}\n"
            + ("" if final is None else f"  Final = {sets(final)}\n")
            + "".join(("PROPERTY " if c == "Rejected" else "INVARIANT ")
                      + c + "\n" for c in checks)
            + "VIEW View\nCHECK_DEADLOCK FALSE\n")


# invariants and properties of SofarMC that belong to a property.  They are
# checked on the graph of the edges, and (thorough) on a deeper one.
CHECKS = {
    "C01": ["Intact", "Rejected"], "C02": ["Fresh"],
    "C03": ["Custom", "Rejected"], "C04": ["Complete", "Rejected"],
    "C06": ["Verdicts"], "C11": ["Verdicts"], "C12": ["Verdicts"],
    "C13": ["Rejected"], "C14": ["Readable"], "C15": ["Readable"],
    "C16": ["Readable"], "C17": ["Readable"], "C18": ["Readable"],
    "C19": ["Upgradable", "Rejected"], "C20": ["Comparison"],
    "C21": ["Rejected"], "C25": ["Readable"],
}


# property -> (groups of calls of the histories, kinds of the last calls,
#              number of calls quick/thorough, number of edges quick/thorough)
EDGES = {
    "C01": (EVERY + ["two"], ["set", "del", "protect"], 4, 5, 6000, 60000),
    "C03": (["edit", "add", "files", "upgrade", "verify"],
            ["add", "del"], 4, 5, 6000, 60000),
    "C04": (EVERY, ["addmissing"], 4, 5, 4000, 60000),
    "C06": (["edit", "add", "files", "verify"], ["verify"], 4, 5,
            3000, 60000),
    "C07": (["edit", "add", "files", "verify"], ["verify"], 4, 5, 3000, 60000),
    "C08": (["edit", "add", "verify"], ["verify"], 4, 5, 3000, 60000),
    "C09": (["edit", "add", "verify"], ["verify"], 4, 5, 3000, 60000),
    "C11": (["edit", "upgrade", "files", "copy", "verify"],
            ["verify", "new", "read"], 4, 5, 3000, 60000),
    "C12": (EVERY, ["verify"], 4, 5, 6000, 60000),
    "C13": (EVERY, ["write"], 4, 5, 3000, 60000),
    "C14": (["edit", "add", "upgrade", "files"], ["write"], 4, 5, 3000, 60000),
    "C15": (["edit", "add", "upgrade", "files"], ["write", "read"], 4, 5,
            4000, 60000),
    "C16": (["edit", "add", "files"], ["read"], 5, 6, 3000, 60000),
    "C17": (["edit", "add", "files", "verify"], ["readnc", "verify", "write"],
            5, 6, 3000, 60000),
    "C18": (["edit", "add", "files", "query"], ["stream", "streamlist"],
            5, 6, 2000, 30000),
    "C19": (EVERY, ["upgrade"], 4, 5, 5000, 60000),
    "C20": (["edit", "add", "files", "copy", "query", "two"], ["equals"],
            4, 5, 5000, 60000),
    "C21": (EVERY + ["two"], ["set", "del", "add", "addmissing", "verify",
                              "copy", "write", "read", "upgrade", "dim"],
            4, 5, 6000, 60000),
    "C24": (EVERY, ["inspect", "info"], 4, 5, 3000, 60000),
    "C25": (EVERY, ["dim", "dims"], 4, 5, 5000, 60000),
}


# property -> (kinds of calls that are chosen more often, number of calls,
#              number of walks of each shard quick/thorough)
WALKS = {
    "C01": (["set", "del", "protect", "upgrade", "read"], 40, 3, 40),
    "C03": (["add", "add", "del", "copy", "write", "read"], 40, 3, 40),
    "C04": (["addmissing", "addmissing", "del", "del", "upgrade"], 40, 2, 30),
    "C12": (["verify"] * 8, 40, 3, 40),
    "C13": (["write"] * 4 + ["set", "repair"], 40, 3, 40),
    "C15": (["repair", "write", "write", "read", "read", "add"], 40, 3, 40),
    "C17": (["readnc", "readnc", "write", "write", "repair"], 40, 3, 40),
    "C18": (["write", "write", "stream", "stream", "add"], 40, 2, 30),
    "C19": (["upgrade"] * 6 + ["new"], 40, 3, 40),
    "C20": (["equals"] * 6 + ["copy"], 40, 3, 40),
    "C21": (["copy", "copy", "add", "upgrade", "equals"], 50, 3, 40),
    "C24": (["inspect", "inspect", "info", "info", "repair"], 40, 2, 30),
    "C25": (["dim", "dim", "dims", "dims", "set"], 40, 3, 40),
    "C27": (["add", "add", "read", "write", "upgrade", "upgrade", "del"], 40, 3,
            40),
}


def generate_walks(prop, tier, seed, shard, db, out):
    """Let TLC simulate behaviours of the state machine."""
    from . import run_shard
    bias, length, quick, thorough = WALKS[prop]
    n = quick if tier == "quick" else thorough
    cfg = out + ".walks"
    with open(cfg + ".cfg", "w") as f:
        f.write("SPECIFICATION WSpec\nCONSTANTS\n"
                f"  Length = {length}\n  Bias <- {prop}Bias\n"
                "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    code, text = run_shard.tlc(
        "", db, spec="SofarWalks", config=cfg, args=(
            "-simulate", f"num={n}", "-depth", str(length + 2),
            "-seed", str(7919 * seed + shard)))
    found = run_shard.printed(text, "WALK")
    if len(found) < n:
        raise RuntimeError(text[-2000:])
    return found


def record_walks(sf, root, prop, tier, seed, shard, out, result):
    from . import session
    walks = generate_walks(prop, tier, seed, shard, out + ".db", out)
    with open(out + ".ndjson", "w") as f:
        s = session.Session(sf, root, f)
        for k, walk in enumerate(walks):
            s.context = label = f"walk {seed}.{shard}.{k}"
            result["items"] += 1
            result["labels"].append(label)
            try:
                for c in walk:
                    if possible(s, c):
                        call(s, c)
            except Exception:  # noqa: BLE001
                result["errors"].append(
                    {"label": label, "error": traceback.format_exc()[-1500:],
                     "event": s.n})
            s.cleanup()
        s.context = "end"
        s.close()
        result["events"] = s.counts


def possible(s, c):
    """Can the call be made (objects and files of the library)?"""
    if c["op"] == "copy":
        return c["a"]["src"] in s.objs
    if c["op"] in ("stream", "streamlist"):
        p = c["a"]["path"]
        return (p if p.endswith(".sofa") else p + ".sofa") in s.files
    if c["op"] in ("new", "read", "readnc"):
        return True
    return c["id"] in s.objs and (
        c["op"] != "equals" or c["a"]["b"] in s.objs)


def generate(prop, tier, seed, folder):
    """Let TLC explore the graph, returns statistics and the output."""
    from . import dbjson, run_shard
    from db import mini
    part, final, quick, thorough, nq, nt = EDGES[prop]
    depth, most = (quick, nq) if tier == "quick" else (thorough, nt)
    db = os.path.join(folder, "mini.db")
    with open(db, "w") as f:
        json.dump(dbjson.export(mini.mini()), f)
    cfg = os.path.join(folder, prop + "Edges")
    with open(cfg + ".cfg", "w") as f:
        f.write(_cfg(part, depth, final, checks=CHECKS.get(prop, ())))
    code, text = run_shard.tlc(
        "", db, spec="SofarEdges", config=cfg, memory="10g", workers="8",
        args=("-deadlock",), gc="Parallel")
    ok = code == 0 and "No error has been found" in text
    states, transitions = run_shard.states(text)
    calls = run_shard.printed(text, "CALLS")
    edges = sorted(set(re.findall(r'<<"EDGE", "([\d.]*)", (\d+)>>', text)))
    total = len(edges)
    rng = random.Random(f"{prop} {seed}")
    if total > most:
        edges = rng.sample(edges, most)
    groups = {}
    for hist, k in edges:
        groups.setdefault(hist, []).append(int(k))
    absent = set(final) - {c["op"] for c in (calls or [[]])[0]}
    if ok and (absent or not edges):
        raise RuntimeError(f"no calls {absent} {text[-2000:]}")
    out = os.path.join(folder, prop + ".edges")
    with open(out, "w") as f:
        json.dump({"calls": calls[0] if calls else [],
                   "groups": sorted(groups.items())}, f)
    return {"module": "SofarEdges", "ok": ok,
            "config": " ".join([f"depth {depth}"] + CHECKS.get(prop, [])),
            "states": states, "transitions": transitions,
            "edges": total, "replayed": len(edges)}, out, \
        "" if ok else text[-3000:]


def explore(prop, folder, depth=5):
    """Check the invariants of a property on a deeper graph."""
    from . import dbjson, run_shard
    from db import mini
    db = os.path.join(folder, "mini.db")
    with open(db, "w") as f:
        json.dump(dbjson.export(mini.mini()), f)
    cfg = os.path.join(folder, prop + "MC")
    with open(cfg + ".cfg", "w") as f:
        f.write(_cfg(EDGES[prop][0] if prop in EDGES else EVERY, depth,
                     spec="Spec", checks=CHECKS[prop]))
    code, text = run_shard.tlc(
        "", db, spec="SofarMC", config=cfg, memory="12g", workers="8",
        args=("-deadlock",), gc="Parallel")
    ok = code == 0 and "No error has been found" in text
    n, m = run_shard.states(text)
    return {"module": "SofarMC", "ok": ok, "states": n, "transitions": m,
            "config": " ".join([f"depth {depth}"] + CHECKS[prop])}, \
        "" if ok else text[-3000:]


def call(s, c, i=None, path=None):
    """Make a call of the specification, for object i and file path."""
    op, a = c["op"], c["a"]
    i = c["id"] if i is None else i
    p = path if path is not None else a.get("path")
    if op == "new":
        return s.new(i, a["conv"], a["version"], a["mandatory"], a["verify"])
    if op == "set":
        return s.set(i, unescape(a["n"]), realise(a["x"]))
    if op == "del":
        return s.delete(i, unescape(a["n"]))
    if op == "protect":
        return s.protect(i, a["v"] if a["bool"] else int(a["v"]))
    if op == "add":
        if a["t"] == "attribute":
            return s.add_attribute(i, unescape(a["n"]), realise(a["x"]))
        return s.add_variable(i, unescape(a["n"]), realise(a["x"]), a["t"],
                              None if a["dims"] == "none" else a["dims"])
    if op == "addmissing":
        return s.add_missing(i, a["m"], a["o"], a["verbose"])
    if op == "verify":
        return s.verify(i, a["mode"], a["handling"])
    if op == "copy":
        return s.copy(a["src"], i)
    if op == "write":
        return s.write(i, p)
    if op == "read":
        return s.read(i, p, {"true": True, "false": False}.get(
            a["verify"], a["verify"]))
    if op == "readnc":
        return s.read_netcdf(i, p)
    if op == "upgrade":
        return s.upgrade(i, None if a["target"] == "none" else a["target"],
                         {"true": True, "false": False}.get(
                             a["verify"], a["verify"]))
    if op == "dim":
        return s.dimension(i, a["d"])
    if op == "dims":
        return s.list_dimensions(i)
    if op == "inspect":
        return s.inspect(i)
    if op == "info":
        return s.info(i, a["what"])
    if op == "equals":
        return s.equals(i, a["b"], None if a["exclude"] == "none"
                        else a["exclude"])
    if op == "stream":
        names = sorted({n for o in s.objs.values() for n in vars(o)
                        if not n.startswith("_")}) + ["Nothing"]
        return s.stream(p, names, ["M", "R", "C", "Q"])
    if op == "streamlist":
        return s.stream_list(p)
    raise ValueError(op)


def edge(s, c):
    """Make a call without changing the objects and files."""
    op = c["op"]
    if op in ("new", "copy", "read", "readnc"):
        call(s, c, "z")
    elif op in ("stream", "streamlist", "equals"):
        call(s, c)
    else:
        s.copy(c["id"], "z")
        if op == "write":
            target = c["a"]["path"]
            full = target if target.endswith(".sofa") else target + ".sofa"
            if full in s.files:
                shutil.copy(s.path(full), s.path("edge.sofa"))
                s.emit("mkfile", "", {"path": "edge"}, [],
                       {"f": s._filechanges()})
            call(s, c, "z", "edge")
            if "edge.sofa" in s.files:
                s.remove("edge.sofa")
        else:
            call(s, c, "z")


def record(sf, root, shard, shards, out, result, source):
    """Replay a share of the edges."""
    from . import session
    with open(source) as f:
        data = json.load(f)
    calls = data["calls"]
    with open(out + ".ndjson", "w") as f:
        s = session.Session(sf, root, f)
        for k, (hist, ks) in enumerate(data["groups"]):
            if k % shards != shard:
                continue
            s.context = label = "edges " + hist
            result["items"] += len(ks)
            result["labels"].append(label)
            try:
                for h in hist.split(".")[:-1]:
                    c = calls[int(h) - 1]
                    if possible(s, c):
                        call(s, c)
                for e in ks:
                    if possible(s, calls[e - 1]):
                        edge(s, calls[e - 1])
            except Exception:  # noqa: BLE001
                result["errors"].append(
                    {"label": label, "error": traceback.format_exc()[-1500:],
                     "event": s.n})
            s.cleanup()
        s.context = "end"
        s.close()
        result["events"] = s.counts
