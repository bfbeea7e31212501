"""Write a SOFA convention data base (csv, json, rules, VERSION) to disk.

Uses no code of the library under test, so that errors in the library can not
hide in the data base.
"""
import json
import os


def flatten(value):
    """[[1, 2]] -> [1, 2]: a single row is a flat list in the csv format."""
    while isinstance(value, list) and len(value) == 1 \
            and isinstance(value[0], list) \
            and not (value[0] and isinstance(value[0][0], list)
                     and len(value[0][0]) == 6):
        value = value[0]
    return value


SOS = {
    "[[[0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 0, 0]]]":
        "permute([0 0 0 1 0 0; 0 0 0 1 0 0], [3 1 2]);",
    "[[[0, 0, 0, 1, 0, 0]]]": "permute([0 0 0 1 0 0], [3 1 2]);"}


def comment(row):
    """What the convention says about the entry (not always something)."""
    if len(row) > 5:
        return row[5]
    return "" if len(row[0]) % 4 == 0 else f"about {row[0]}, {row[4]} (x)"


def row_to_dict(row):
    """Entry of the json file for a row of the convention."""
    name, default, flags, dimensions, dtype = row[:5]
    return {"default": flatten(default), "flags": flags,
            "dimensions": dimensions, "type": dtype,
            "comment": comment(row)}


def ordered(rows):
    """Global attributes first, data last (as in the compiled files)."""
    return ([r for r in rows if "GLOBAL" in r[0]]
            + [r for r in rows
               if "GLOBAL" not in r[0] and not r[0].startswith("Data")]
            + [r for r in rows if r[0].startswith("Data")])


def to_json(rows):
    return {r[0]: row_to_dict(r) for r in ordered(rows)}


def _cell(value):
    if value is None:
        return ""
    if value == [""]:
        return "{''}"
    if isinstance(value, tuple):
        value = list(value)
    if isinstance(value, list):
        if str(value) in SOS:
            return SOS[str(value)]
        value = flatten(value)
        if isinstance(value[0], list):
            return "[" + "; ".join(
                " ".join(str(n) for n in r) for r in value) + "]"
        return "[" + " ".join(str(n) for n in value) + "]"
    return str(value)


def to_csv(rows):
    lines = ["Name\tDefault\tFlags\tDimensions\tType\tComment"]
    for row in rows:
        name, default, flags, dims, dtype = row[:5]
        lines.append("\t".join([name, _cell(default), _cell(flags),
                                _cell(dims), dtype, comment(row)]))
    return "\n".join(lines) + "\n"


def write_db(path, db, csv=False):
    """
    Write a data base to `path` (the folder ``sofa_conventions``).

    db : dict with the keys standardized, deprecated ({stem: rows}), rules,
        unit_aliases, deprecations, upgrade
    """
    for sub in ("conventions/deprecated", "rules"):
        os.makedirs(os.path.join(path, sub), exist_ok=True)
    with open(os.path.join(path, "VERSION"), "w") as f:
        f.write(db.get("version", "2.1\n"))
    for kind, folder in (("standardized", "conventions"),
                         ("deprecated", "conventions/deprecated")):
        for stem, rows in db[kind].items():
            base = os.path.join(path, folder, stem)
            with open(base + ".json", "w") as f:
                json.dump(to_json(rows), f, indent=1)
            if csv:
                with open(base + ".csv", "w") as f:
                    f.write(to_csv(rows))
    for name in ("rules", "unit_aliases", "deprecations", "upgrade"):
        with open(os.path.join(path, "rules", name + ".json"), "w") as f:
            json.dump(db[name], f, indent=1)


def realistic():
    """The data base modelled on the published SOFA conventions."""
    from . import conventions as c
    std, dep = c.standardized(), c.deprecated()
    return {"standardized": std, "deprecated": dep,
            "rules": c.rules([*std, *dep]), "unit_aliases": c.UNIT_ALIASES,
            "deprecations": c.DEPRECATIONS, "upgrade": c.upgrade_rules()}


def from_sources(db):
    """The data base that can be written in tables (see to_csv)."""
    def convert(rows):
        out = []
        for r in rows:
            d = flatten(list(r[1]) if isinstance(r[1], tuple) else r[1])
            while isinstance(d, list) and isinstance(d[0], tuple):
                d = [list(x) for x in d]
            if isinstance(d, list) and isinstance(d[0], list) \
                    and isinstance(d[0][0], str):
                continue      # lists of texts can not be written
            out.append((r[0], d, *r[2:]))
        return out
    return dict(db, **{k: {s: convert(rows) for s, rows in db[k].items()}
                       for k in ("standardized", "deprecated")})
