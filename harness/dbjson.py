"""Export a data base (see db/dbgen.py) for the specification."""
from .values import esc, project_arg
from db.dbgen import comment, flatten, ordered


def _name(n):
    return n.replace(":", "_").replace(".", "_")


def _dims(d):
    return [] if d is None else [list(p) for p in d.split(", ")]


def entry(row):
    name, default, flags, dims, dtype = row[:5]
    flags = flags or ""
    return {"m": "m" in flags, "r": "r" in flags, "t": dtype,
            "dims": _dims(dims), "def": project_arg(flatten(default)),
            "about": esc(comment(row))}


def export(db):
    convs = {}
    deprecated = db["deprecations"]["GLOBAL:SOFAConventions"]
    versions = sorted({float(s.split("_")[1]) for k in
                       ("standardized", "deprecated") for s in db[k]})
    for kind in ("standardized", "deprecated"):
        for stem, rows in db[kind].items():
            name, version = stem.split("_")
            convs[stem] = {
                "name": name, "version": version,
                "vnum": versions.index(float(version)),
                "stable": float(version) >= 1.0,
                "deprecated": kind == "deprecated",
                "order": [_name(r[0]) for r in ordered(rows)],
                "e": {_name(r[0]): entry(r) for r in rows}}
    rules = []
    for key, r in db["rules"].items():
        specific = []
        for val, deps in r.get("specific", {}).items():
            specific.append({
                "val": val,
                "deps": [{"key": _name(k), "any": v is None, "ref": v or []}
                         for k, v in deps.items() if k != "_dimensions"],
                "dims": [{"dim": k, "sizes": v["value"],
                          "text": v["value_str"]} for k, v in
                         deps.get("_dimensions", {}).items()]})
        rules.append({"key": _name(key), "any": r["value"] is None,
                      "value": r["value"] or [],
                      "general": [_name(k) for k in r.get("general", [])],
                      "specific": specific})
    upgrade = {}
    for name, r in db["upgrade"].items():
        upgrade[name] = [{
            "from": ft[0], "to": ft[1],
            "move": [{"src": _name(s), "dst": _name(m["target"]),
                      "axis": m["moveaxis"] or [],
                      "dims": m["deprecated_dimensions"] or []}
                     for s, m in r[ft[2]]["move"].items()],
            "remove": [_name(n) for n in r[ft[2]]["remove"]],
            "messages": [m for m in [r[ft[2]]["message"]] if m]}
            for ft in r["from_to"]]
    return {"conventions": convs, "rules": rules,
            "aliases": db["unit_aliases"], "deprecations": deprecated,
            "upgrade": upgrade}
