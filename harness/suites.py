"""What the checks do with the library (see DESIGN.md).

A suite is a generator of items (label, function of the context).  The items
of a suite are distributed over several processes.  Everything an item does is
recorded by the session and validated against the specification afterwards.
"""
import functools
import itertools
import os

import numpy as np

from .gen import TEXT, chars, seeded


class Context:

    def __init__(self, session, gen, rng, tier):
        self.s, self.g, self.rng, self.tier = session, gen, rng, tier
        self.full = tier == "thorough"

    def some(self, seq, n):
        """n elements (all of them in a thorough run)."""
        seq = list(seq)
        if self.full or n >= len(seq):
            return seq
        return [seq[k] for k in sorted(self.rng.sample(range(len(seq)), n))]

    def change(self, i, f):
        """Change an object without protection."""
        self.s.protect(i, False)
        f()
        self.s.protect(i, True)

    def force(self, i, name, value):
        self.change(i, lambda: self.s.set(i, name, value))

    def drop(self, i, *names):
        def f():
            for n in names:
                if n in self.g.data(i):
                    self.s.delete(i, n)
        self.change(i, f)

    def entries(self, i):
        return list(self.g.data(i))


HANDLING = ("raise", "print", "return", "ignore")
MODES = ("write", "read")


def _convs(db):
    out = []
    for kind in ("standardized", "deprecated"):
        out += [tuple(s.split("_")) for s in db[kind]]
    return out


def _stable(db):
    return [tuple(s.split("_")) for s in db["standardized"]
            if float(s.split("_")[1]) >= 1]


def _label(*parts):
    return " ".join(str(p) for p in parts)


# -- C01 ---------------------------------------------------------------------
STRANGE = ["GLOBAL_Titel", "Data_IRR", "Foo", "foo_bar", "GLOBAL", "Data",
           "SourcePosition_", "sourceposition", "GLOBAL_title", "N2"]
NOT_BOOL = [0, 1, "True", None, 1.0, [True], np.bool_(True)]


def attempts(c, i, n=8):
    """Assign and delete entries of all kinds in a protected object."""
    s, g = c.s, c.g
    rows = g.rows(g.conv(i))
    names = c.entries(i)
    ro = [n for n in names if n in rows and "r" in (rows[n][2] or "")]
    mand = [n for n in names if n in rows and "m" in (rows[n][2] or "")]
    opt = [n for n in names if n not in mand]
    for name in c.some(ro, n):
        s.set(i, name, c.rng.choice(["x", 1, [1, 2], g.data(i)[name]]))
    for name in c.some(mand, n):
        s.delete(i, name)
    for name in c.some([m for m in names if m not in ro], n):
        s.set(i, name, c.rng.choice([g.data(i)[name], "y", 2.5, [[1, 2]]]))
    for name in c.some(names, 2):
        s.set(i, name, c.rng.choice(RAGGED))
    for name in c.some(STRANGE, 4):
        s.set(i, name, "x")
        s.delete(i, name)
    for name in c.some(opt, 3):
        s.delete(i, name)
        s.set(i, name, 1)
        s.delete(i, name)


def c01(db):
    for conv, kind in itertools.product(_convs(db), (
            "new", "mandatory", "copy", "read", "custom", "completed")):
        def f(c, conv=conv, kind=kind):
            if c.g.make("o", conv, kind):
                c.s.probe("o")
                attempts(c, "o", 5)
        yield _label("protect", *conv, kind), f

    for conv in _convs(db):
        def f(c, conv=conv):
            s, g = c.s, c.g
            if not g.make("o", conv):
                return
            for v in NOT_BOOL:
                s.protect("o", v)
            s.restore("o")
            s.protect("o", False)
            s.restore("o")
            for v in c.some(NOT_BOOL, 3):
                s.protect("o", v)
            s.probe("o")
            for n in c.some(c.entries("o"), 6):
                s.set("o", n, c.rng.choice(["z", 4, [1, 2, 3]]))
            s.set("o", "Anything", 1)
            s.delete("o", "Anything")
            for n in c.some(c.entries("o"), 3):
                s.delete("o", n)
            s.delete("o", "Nothing")
            s.protect("o", True)
            attempts(c, "o", 3)
        yield _label("unprotected", *conv), f

        def f(c, conv=conv):
            """Operations hand objects back protected."""
            s, g = c.s, c.g
            if not g.make("o", conv):
                return
            s.copy("o", "base")
            steps = [
                lambda: s.add_variable("o", "Temp", [[1, 2]], "double", "q"),
                lambda: s.add_attribute("o", "GLOBAL_Weather", "nice"),
                lambda: s.add_missing("o"),
                lambda: s.add_missing("o", False, True),
                lambda: s.add_missing("o", True, False, False),
                lambda: s.verify("o", "read", "return"),
                lambda: s.verify("o", "write", "return"),
                lambda: s.verify("o", "read", "ignore"),
                lambda: s.verify("o", "read", "raise"),
                lambda: s.upgrade("o"), lambda: s.upgrade("o", "No_1.0"),
                lambda: s.inspect("o"), lambda: s.info("o", "all"),
                lambda: s.write("o", "f")]
            for step in steps:
                s.copy("base", "o")
                start = c.rng.random() < .5
                s.protect("o", start)
                if c.rng.random() < .5:
                    cand = [n for n in c.entries("o") if n not in (
                        "GLOBAL_SOFAConventions", "GLOBAL_DataType",
                        "GLOBAL_SOFAConventionsVersion", "GLOBAL_Version")
                        and n.startswith("GLOBAL_")]
                    s.protect("o", False)
                    s.delete("o", c.rng.choice(cand))
                    s.protect("o", start)
                step()
                s.probe("o")
                s.set("o", "GLOBAL_Titel", "x")
        yield _label("handed back", *conv), f

        def f(c, conv=conv):
            """Also if the data is broken in several ways."""
            s, g = c.s, c.g
            if not g.make("o", conv, c.rng.choice(["new", "custom"])):
                return
            s.copy("o", "base")
            for what in c.some(itertools.product(BREAK, repeat=2), 12):
                s.copy("base", "o")
                s.protect("o", False)
                for w in what:
                    break_data(c, "o", w, g.rows(conv))
                s.protect("o", True)
                s.copy("o", "p")
                for k in range(3):
                    s.copy("p", "o")
                    c.rng.choice([
                        lambda: s.verify("o", c.rng.choice(MODES),
                                         c.rng.choice(HANDLING)),
                        lambda: s.verify("o", c.rng.choice(MODES), "return"),
                        lambda: s.write("o", "f"),
                        lambda: s.add_missing("o", True, True, False),
                        lambda: s.dimension("o", "M")])()
                    attempts(c, "o", 1)
        yield _label("broken", *conv), f

        def f(c, conv=conv):
            """Upgraded objects follow the new convention."""
            s, g = c.s, c.g
            if not g.make("o", conv):
                return
            e = s.upgrade("o")
            s.probe("o")
            for t in e["out"]["targets"]:
                s.copy("o", "p")
                s.upgrade("p", t, False)
                s.probe("p")
                attempts(c, "p", 8)
                s.copy("p", "q")
                s.probe("q")
        if conv[0] in db["upgrade"]:
            yield _label("upgraded", *conv), f
    yield from walks(db, 24)


BREAK = ("missing", "missing", "type", "type", "name", "version", "shape",
         "value", "unknown")


def break_data(c, i, what, rows):
    """Make the data of an (unprotected) object invalid."""
    s, rng = c.s, c.rng
    names = [n for n in c.entries(i) if n in rows and n not in KEEP]
    if what == "missing":
        mand = [n for n in names if "m" in (rows[n][2] or "")]
        s.delete(i, rng.choice(mand))
    elif what == "type":
        n = rng.choice(names)
        s.set(i, n, 3 if rows[n][4] == "attribute" else "text")
    elif what == "name":
        s.set(i, "GLOBAL_SOFAConventions", rng.choice(["Foo", "", "a b"]))
    elif what == "version":
        s.set(i, "GLOBAL_SOFAConventionsVersion", rng.choice(["9.9", "", "latest"]))
    elif what == "shape":
        n = rng.choice([m for m in names if rows[m][4] == "double"])
        s.set(i, n, np.ones(rng.choice([(2, 5), (3, 7, 2), (5,)])))
    elif what == "value":
        s.set(i, rng.choice([m for m in names if rows[m][4] == "attribute"]),
              "Something")
    elif what == "unknown":
        s.set(i, rng.choice(["Anything", "GLOBAL_Anything"]), "text")


# -- random walks ------------------------------------------------------------
def walks(db, n, steps=40, files=True):
    convs = _convs(db)
    for k in range(n):
        def f(c, k=k):
            walk(c, c.rng.sample(convs, 2), steps, files)
        yield _label("walk", k), f


def walk(c, convs, steps, files):
    s, g, rng = c.s, c.g, c.rng
    ids = ["a", "b", "c"]
    for i, conv in zip(ids, convs):
        g.make(i, conv, rng.choice(["new", "mandatory", "custom", "copy"]))
    stored = []
    for _ in range(steps):
        alive = [i for i in ids if g.alive(i)]
        if not alive:
            return
        i = rng.choice(alive)
        names = c.entries(i)
        rows = g.rows(g.conv(i))
        op = rng.choice([
            "set", "set", "set", "del", "del", "free", "unset", "addv",
            "adda", "missing", "verify", "copy", "probe", "poke", "dims",
            "equals", "protect", "upgrade", "info", "inspect", "new"]
            + (["write", "write", "read"] if files else []))
        if op == "set" and names:
            n = rng.choice(names)
            row = rows.get(n)
            if row is not None and row[4] != "attribute":
                x = g.numbers(rng.choice([(1,), (1, 3), (2, 3), (2, 2, 2)]))
                x = g.present(x)
            else:
                x = rng.choice(TEXT)
            s.set(i, n, x)
        elif op == "del" and names:
            s.delete(i, rng.choice(names))
        elif op in ("free", "unset"):
            n = rng.choice(names + [*rows])
            if n in ("GLOBAL_SOFAConventions",
                     "GLOBAL_SOFAConventionsVersion"):
                continue
            s.protect(i, False)
            if op == "unset":
                s.delete(i, n)
            elif n in rows:
                s.set(i, n, rng.choice([1, "x", [[1, 2, 3]]]))
            if rng.random() < .8:
                s.protect(i, True)
        elif op == "addv":
            n = rng.choice(["Temp", "Label", "Grid", "Own", rng.choice(
                names + [*rows])])
            t = rng.choice(["double", "double", "string"])
            s.add_variable(i, n, rng.choice([1, [1, 2], [[1, 2, 3]], "x",
                                             ["a", "b"]]), t,
                           rng.choice(["I", "M", "MR", "q", "IC", "MS",
                                       "IN"]))
        elif op == "adda":
            n = rng.choice(["GLOBAL_Weather", "Temp_Units", "Label_Type",
                            "Own_Units", rng.choice(names) + "_Info"])
            s.add_attribute(i, n, rng.choice(TEXT))
        elif op == "missing":
            s.add_missing(i, rng.random() < .7, rng.random() < .7,
                          rng.random() < .5)
        elif op == "verify":
            s.verify(i, rng.choice(MODES), rng.choice(HANDLING))
        elif op == "copy":
            j = rng.choice([k for k in ids if k != i])
            s.copy(i, j)
        elif op == "probe":
            s.probe(i)
        elif op == "poke":
            arrays = [n for n in names
                      if isinstance(g.data(i)[n], np.ndarray)
                      and g.data(i)[n].dtype.kind in "if"
                      and g.data(i)[n].size]
            if arrays:
                n = rng.choice(arrays)
                s.poke(i, n, rng.randrange(g.data(i)[n].size),
                       rng.randrange(100, 999))
        elif op == "dims":
            if rng.random() < .5:
                s.list_dimensions(i)
            else:
                s.dimension(i, rng.choice("MRENCISXQ"))
        elif op == "equals":
            s.equals(i, rng.choice(alive), rng.choice(
                [None, None, "GLOBAL", "attr", "DATE"]), rng.random() < .5)
        elif op == "protect":
            s.protect(i, rng.choice([True, True, False, 1]))
        elif op == "upgrade":
            e = s.upgrade(i)
            if e["out"]["targets"] and rng.random() < .7:
                s.upgrade(i, rng.choice(e["out"]["targets"]),
                          rng.choice(["auto", False]))
        elif op == "info":
            s.info(i, rng.choice(["all", "mandatory", "data", "nothing",
                                  rng.choice(names)]))
        elif op == "inspect":
            s.inspect(i)
        elif op == "new":
            s.new(i, *rng.choice(g.std + g.dep))
        elif op == "write":
            p = rng.choice(["x", "y.sofa"])
            s.write(i, p, rng.choice([0, 4, 9]))
            stored.append(p)
        elif op == "read" and stored:
            j = rng.choice(ids)
            p = rng.choice(stored)
            if rng.random() < .7:
                s.read(j, p)
            else:
                s.read_netcdf(j, p)
    s.check_db()


# -- C02 ---------------------------------------------------------------------
def c02(db):
    for name, version in _convs(db):
        def f(c, name=name, version=version):
            s = c.s
            for m, v in itertools.product((False, True),
                                          ("auto", True, False)):
                s.new("o", name, version, m, v)
                if c.g.alive("o") and v == "auto":
                    s.probe("o")
                    s.verify("o", "read", "return")
            s.new("o", name, "latest")
            s.new("o", name, version)
            s.copy("o", "p")
            s.equals("o", "p")
            attempts(c, "o", 2)
        yield _label("create", name, version), f
    for name in sorted({n for n, _ in _convs(db)}):
        def f(c, name=name):
            s = c.s
            for m, v in itertools.product((False, True),
                                          ("auto", True, False)):
                s.new("o", name, "latest", m, v)
            for version in ("9.7", "0.1", "1", "1.00", "", "2", "10",
                            "1.0", "2.0", "Latest", "0.9"):
                s.new("o", name, version, False, False)
            for wrong in (name.lower(), name[:-1], name + "x", name + "_1.0",
                          name.upper(), " " + name):
                if wrong not in c.g.names:
                    s.new("o", wrong)
                    s.new("p", wrong, "1.0", True, False)
            s.check_db()
        yield _label("versions", name), f

    def f(c):
        for wrong in ("", "Foo", "General", "_", "1.0", "GLOBAL"):
            c.s.new("o", wrong)
        for wrong in (1, ["GeneralTF"], 1.0, True):
            c.s.new("o", wrong)
        c.s.conventions()
    yield "unknown names", f


# -- C03 ---------------------------------------------------------------------
NEW_NAMES = [
    "Temp", "temp", "T", "GLOBAL_X", "GLOBAL_x_y", "GLOBALx", "GLOBAL",
    "Temp_Units", "SourcePosition_X", "SourcePosition_Units", "Data_X",
    "Data_IR_X", "Data_IR_X_Y", "Data_Foo_X", "a_b_c", "_x", "x_", "Data",
    "PRIVATEx", "APIx", "copy", "verify", "SourcePosition", "Data_IR",
    "N_LongName", "SourceView", "SourceView_Units", "SourceUp",
    "GLOBAL_Title", "GLOBAL_History", "Title", "Data_Real_Units", "info",
    "SourceTuningFrequency", "KGrid", "KRead", "Data_Extra", "Own_Units",
    "Own", "SourcePositionX", "SourcePositionX_Y", "Data_Delay_Units"]
NEW_TYPES = ["attribute", "double", "string", "Double", "float", "int", ""]
NEW_DIMS = ["I", "M", "MRN", "IC", "ic", "q", "mQ", "IS", "abcd", "", None]


RAGGED = ([[1, 2], [3]], [[1], 2], [["a", "b"], ["c"]], [1, [2]],
          [[[1, 2]], [[3]]])


def c03(db):
    some = [("GeneralTF", "2.0"), ("GeneralFIR-E", "2.0"), ("Kitchen", "1.0"),
            ("SimpleFreeFieldHRIR", "1.0"), ("OldKitchen", "0.5"),
            ("SimpleHeadphoneIR", "1.0"), ("GeneralSOS", "1.0"),
            ("PrelimTest", "0.9")]
    some = [x for x in some if x in _convs(db)]
    for conv, name in itertools.product(some, NEW_NAMES):
        def f(c, conv=conv, name=name):
            s, g = c.s, c.g
            if not g.make("o", conv):
                return
            if c.rng.random() < .3:
                s.add_variable("o", "Own", [1, 2, 3], "double", "q")
            for t, dims in c.some(itertools.product(NEW_TYPES, NEW_DIMS), 12):
                if t == "attribute":
                    s.add_attribute("o", name, "text")
                elif t:
                    x = c.rng.choice(["ab", ["ab", "c"], [["ab"], ["c"]]]) \
                        if t == "string" else g.numbers(
                            c.rng.choice([(1, 1), (1, 3), (2, 3), (2, 3, 1)]))
                    if c.rng.random() < .3 and name not in g.data("o") \
                            and name[:1] != "_":
                        s.protect("o", c.rng.random() < .8)
                        s.add_variable("o", name, c.rng.choice(RAGGED), t,
                                       dims)
                        s.probe("o")
                        if c.rng.random() < .5:
                            s.add_attribute("o", name + "_Units", "metre")
                            s.protect("o", True)
                            s.set("o", name, 1)
                        s.protect("o", True)
                    s.add_variable("o", name, x, t, dims)
                if name in g.data("o") and c.rng.random() < .6:
                    s.delete("o", name)
            s.probe("o")
            s.verify("o", "read", "return")
        yield _label("add", *conv, name), f

    for conv in _convs(db):
        def f(c, conv=conv):
            life(c, conv)
        yield _label("life", *conv), f

        def f(c, conv=conv):
            """Optional data of the convention is deleted and added again."""
            s, g = c.s, c.g
            if not g.make("o", conv):
                return
            rows = g.rows(conv)
            opt = [n for n in rows if "m" not in (rows[n][2] or "")]
            for n in c.some(opt, 8):
                row = rows[n]
                s.delete("o", n)
                s.add_attribute("o", n, "some text")
                if row[4] == "attribute":
                    s.delete("o", n)
                    s.add_variable("o", n, [1], "double", "I")
                    s.add_attribute("o", n, "text")
                else:
                    s.add_variable("o", n, row[1], row[4],
                                   c.rng.choice(row[3].split(", ") + ["q"]))
                s.info("o", n)
            s.probe("o")
            s.verify("o", "read", "return")
            s.add_missing("o")
            s.verify("o", "write", "return")
        yield _label("optional data", *conv), f

        def f(c, conv=conv):
            """Data from files without a known convention is repaired."""
            s, g = c.s, c.g
            if not g.make("b", conv, "custom"):
                return
            gl, dims, v = g.file_parts("b")
            for n in range(3):
                wrong = dict(gl, SOFAConventionsVersion="7.7")
                if n == 1:
                    wrong = dict(gl, SOFAConventions="Foo")
                if n == 2:
                    wrong = {k: x for k, x in gl.items()
                             if not k.startswith("SOFAConv")}
                s.foreign("f.sofa", wrong, dims, v)
                s.read_netcdf("o", "f")
                if not g.alive("o"):
                    continue
                s.probe("o")
                g.custom["o"] = dict(g.custom["b"])
                if n < 2:
                    s.verify("o", "read", "return")
                s.protect("o", False)
                s.set("o", "GLOBAL_SOFAConventions", conv[0])
                s.set("o", "GLOBAL_SOFAConventionsVersion", conv[1])
                s.protect("o", c.rng.random() < .7)
                s.verify("o", c.rng.choice(MODES), "return")
                s.probe("o")
                s.info("o", "all")
                s.copy("o", "p")
                for m in list(g.custom["o"]):
                    if m in g.data("o"):
                        s.set("o", m, g.data("o")[m])
                        s.delete("o", m)
                s.verify("o", "read", "return")
                s.write("p", "w")
                s.read("q", "w")
                if g.alive("q"):
                    s.roundtrip("p", "q")
        yield _label("repaired", *conv), f
    yield from walks(db, 10)


def life(c, conv):
    """Custom data over its whole life."""
    s, g, rng = c.s, c.g, c.rng
    if not g.make("o", conv):
        return
    g.fill("o")
    g.add_custom("o", 4)
    s.probe("o")
    s.verify("o", "read", "return")
    s.info("o", "all")
    s.copy("o", "p")
    g.custom["p"] = dict(g.custom["o"])
    ok = not s.write("p", "f")["exc"]
    s.read("r", "f")
    if ok and g.alive("r"):
        g.custom["r"] = dict(g.custom["o"])
        s.roundtrip("p", "r")
    for i in [k for k in ("o", "p", "r") if g.alive(k)]:
        for n in list(g.custom[i]):
            atts = [a for a in g.data(i) if a.startswith(n + "_")]
            for a in atts:
                s.delete(i, a)
            s.add_variable(i, n, 1, "double", "I")       # still exists
            s.delete(i, n)
            s.set(i, n, 1)
            for t, dims, x in rng.sample([
                    ("double", "I", 7), ("string", "IS", ["word"]),
                    ("double", "z", [1, 2, 3, 4]),
                    ("double", "IC", [[1, 2, 3]]),
                    ("string", "MS", "text")], 2):
                s.add_variable(i, n, x, t, dims)
                if rng.random() < .7:
                    s.add_attribute(i, n + "_Units", "metre")
                    s.verify(i, "read", "return")
                    s.delete(i, n + "_Units")
                s.verify(i, "read", "return")
                s.delete(i, n)
            s.add_attribute(i, n + "_Units", "metre")    # without variable
            s.verify(i, "read", "return")
        s.probe(i)
    if g.alive("r"):
        s.equals("p", "r")
    s.write("p", "f2")
    s.read("q", "f2")
    s.check_db()


# -- C04 ---------------------------------------------------------------------
def c04(db):
    for conv in _convs(db):
        for kind in ("new", "mandatory", "read", "readnc", "custom"):
            def f(c, conv=conv, kind=kind):
                s, g, rng = c.s, c.g, c.rng
                if not g.make("b", conv, kind):
                    return
                keep = ("GLOBAL_SOFAConventions",
                        "GLOBAL_SOFAConventionsVersion")
                for m, o in itertools.product((True, False), repeat=2):
                    for share in c.some((.03, .1, .3, 1), 2):
                        s.copy("b", "o")
                        c.drop("o", *[n for n in c.entries("o")
                                      if n not in keep
                                      and rng.random() < share])
                        if rng.random() < .3:
                            n = rng.choice(c.entries("o"))
                            if n not in keep:
                                c.force("o", n, rng.choice(
                                    [1, "x", [[1, 2]], {"a": 1}]))
                        if rng.random() < .3:
                            s.protect("o", False)
                        s.add_missing("o", m, o, rng.random() < .8)
                        s.add_missing("o", m, o, True)
                        if rng.random() < .3:
                            s.add_missing("o")
                            s.verify("o", "read", "return")
                s.probe("o")
                s.new("n", *conv, True)
                if g.alive("n"):
                    s.add_missing("n", True, True, rng.random() < .5)
                    s.new("f", *conv)
                    s.equals("n", "f", "GLOBAL")
                s.check_db()
            yield _label("missing", *conv, kind), f

        def f(c, conv=conv):
            """Single entries."""
            s, g = c.s, c.g
            if not g.make("o", conv):
                return
            names = [n for n in c.entries("o") if n not in (
                "GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion")]
            for n in c.some(names, 15):
                c.drop("o", n)
                s.add_missing("o", c.rng.random() < .7, c.rng.random() < .7)
            s.add_missing("o")
            s.new("p", *conv)
            s.equals("o", "p", "GLOBAL")
        yield _label("single", *conv), f

    def f(c):
        s, g = c.s, c.g
        g.make("o", g.stable[0])
        for n in ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion"):
            s.copy("o", "p")
            for other in ("9.9", "latest"):
                c.force("p", n, other)
                s.add_missing("p")
            s.copy("o", "p")
            for other in c.some(g.std + g.dep, 10):
                c.force("p", "GLOBAL_SOFAConventions", other[0])
                c.force("p", "GLOBAL_SOFAConventionsVersion", other[1])
                s.add_missing("p")
                s.probe("p")
    yield "other conventions", f


# -- C05 ---------------------------------------------------------------------
def values(c):
    r = c.rng
    return [
        5, -3, 0, 2.5, 1e-300, float("nan"), float("inf"), True, "text", "",
        "ä", [1, 2, 3], (1, 2, 3), [[1, 2], [3, 4]], ((1, 2), (3, 4)),
        [(1.5, 2), [3, 4]], [[[1, 2], [3, 4]]], [[[[1], [2]]]], [7], [[7]],
        [[[7.5]]], (7,), ["a"], [["a"]], ["a", "b"], [["a", "bcd"]],
        [["a"], ["b"]], [1, 2.5], [True, False], [1, "a"], [2 ** 40, 1],
        [], [1 + 2j], 1 + 2j, None, {"a": 1}, range(4), b"bytes",
        np.float64(2.5), np.float32(.1), np.int8(-3), np.uint16(7),
        np.bool_(True), np.str_("np"), np.array(5), np.array([1, 2, 3]),
        np.array([1.5]), np.array([[1, 2], [3, 4]]), np.zeros((2, 3, 1)),
        np.array(["a", "bc"]), np.array([["a"], ["bc"]]),
        np.array([b"a", b"bc"]), np.array("scalar"),
        np.asfortranarray(np.arange(6).reshape(2, 3)),
        np.arange(12).reshape(3, 4)[:, ::2], np.arange(4)[::-1],
        np.arange(3, dtype="uint8"), np.arange(3, dtype=">f4"),
        np.arange(3, dtype="float16"), np.array([True, False]),
        np.array([1 + 1j]), np.array([[r.random() for _ in range(5)]]),
        [[r.randrange(10 ** 6) for _ in range(4)] for _ in range(3)],
        [r.random() for _ in range(9)], [[1, 2, 3]], [0, 0],
        [np.float64(1), 2], [np.arange(3), np.arange(3)], [np.array([4])]]


def c05(db):
    for conv in _convs(db):
        def f(c, conv=conv):
            s, g = c.s, c.g
            if not g.make("o", conv, c.rng.choice(["new", "custom"])):
                return
            s.copy("o", "p")
            names = [n for n in c.entries("o")
                     if n not in ("GLOBAL_SOFAConventions",
                                  "GLOBAL_SOFAConventionsVersion")]
            allv = values(c)
            s.protect("o", False)
            for v in allv:
                s.set("o", c.rng.choice(names), v)
            s.set("o", "New", c.rng.choice(allv))
            s.delete("o", "New")
            s.protect("o", True)
            rows = g.rows(conv)
            for v in c.some(allv, 25):
                n = c.rng.choice([m for m in names
                                  if m in rows and rows[m][4] != "attribute"])
                s.copy("p", "o")
                c.force("o", n, v)
                s.verify("o", "write", "return")
                if c.rng.random() < .2:
                    s.equals("o", "p")
                if c.rng.random() < .1:
                    s.dimension("o", "M")
        yield _label("values", *conv), f

    for conv in _stable(db):
        def f(c, conv=conv):
            """All ways to say the same are the same."""
            s, g = c.s, c.g
            if not g.make("o", conv, "filled"):
                return
            s.copy("o", "p")
            rows = g.rows(conv)
            for n in c.entries("o"):
                x = g.data("o")[n]
                if n not in rows or rows[n][4] == "attribute":
                    continue
                a = np.asarray(x)
                alts = [a, a.tolist()]
                if a.ndim == 2 and a.shape[0] == 1:
                    alts += [a[0].tolist(), tuple(a[0].tolist())]
                if a.dtype.kind in "if":
                    alts += [np.asfortranarray(a), a.astype("f8")]
                if a.size == 1:
                    alts += [a.reshape(-1)[0].item(), [a.reshape(-1)[0]]]
                c.force("p", n, c.rng.choice(alts))
            s.equals("o", "p")
            s.verify("p", "write", "return")
            s.write("p", "f")
            s.read("q", "f")
            if g.alive("q"):
                s.roundtrip("p", "q")
                s.equals("o", "q")
        yield _label("same data", *conv), f
    for conv in _convs(db):
        def f(c, conv=conv):
            """The order of the entries in which data are assigned."""
            s, g = c.s, c.g
            if g.make("o", conv, "custom"):
                for _ in range(3):
                    g.fill("o")
                s.verify("o", "read", "return")
        yield _label("assigned", *conv), f


# -- C06 ---------------------------------------------------------------------
KEEP = ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion")
WRONG = {"attribute": [1, 2.5, [1, 2], ["a", "b"], np.array(["a", "b"]),
                       {"a": 1}, None, ["a"], "", "fine", b"x", True],
         "double": ["1", "text", ["a", "b"], {"a": 1}, None, [1 + 1j, 2],
                    [True, False], b"1", 1, 2.5, [[1, 2]], True,
                    np.arange(3, dtype="u1"), np.array([1 + 1j]),
                    np.array(["1"]), np.int16(3), np.float32(2),
                    np.array([[1.5]], "f4"), 1j, np.array([], "f8"),
                    np.array(4.5)],
         "string": [1, 2.5, [1, 2], {"a": 1}, None, [True], "text",
                    ["a", "b"], [["a"]], np.array([1.]), np.array(["a"]),
                    np.array([b"a", b"b"]), b"x", 1j]}


def c06(db):
    for conv in _convs(db):
        def f(c, conv=conv):
            s, g = c.s, c.g
            if not g.make("b", conv, c.rng.choice(
                    ["new", "mandatory", "custom", "copy"])):
                return
            names = [n for n in c.entries("b") if n not in KEEP]
            for n in names:
                for h in c.some(HANDLING, 1):
                    s.copy("b", "o")
                    c.drop("o", n)
                    s.verify("o", c.rng.choice(MODES), h)
            for n in KEEP:
                s.copy("b", "o")
                c.drop("o", n)
                s.verify("o", "read", "return")
        yield _label("missing", *conv), f

        def f(c, conv=conv):
            s, g = c.s, c.g
            if not g.make("b", conv):
                return
            names = [n for n in c.entries("b") if n not in KEEP]
            for _ in range(20 if c.full else 8):
                s.copy("b", "o")
                c.drop("o", *c.rng.sample(names, c.rng.choice([2, 3, 8])))
                h = c.rng.choice(HANDLING)
                s.verify("o", c.rng.choice(MODES), h)
                s.verify("o", c.rng.choice(MODES), "return")
                s.probe("o")
        yield _label("more missing", *conv), f

        def f(c, conv=conv):
            s, g = c.s, c.g
            if not g.make("b", conv, c.rng.choice(["new", "custom"])):
                return
            rows = g.rows(conv)
            for n in c.some(c.entries("b"), 25):
                t = rows[n][4] if n in rows else "double"
                for v in c.some(WRONG[t], 2):
                    if n in KEEP and not isinstance(v, str):
                        continue
                    s.copy("b", "o")
                    c.force("o", n, v)
                    s.verify("o", c.rng.choice(MODES), c.rng.choice(
                        ("raise", "print", "return")))
        yield _label("types", *conv), f

        def f(c, conv=conv):
            """Wrong types, and missing data, at the same time."""
            s, g = c.s, c.g
            if not g.make("b", conv):
                return
            rows = g.rows(conv)
            names = [n for n in c.entries("b") if n not in KEEP]
            for _ in range(12 if c.full else 4):
                s.copy("b", "o")
                for n in c.rng.sample(names, 2):
                    c.force("o", n, c.rng.choice(WRONG[rows[n][4]]))
                if c.rng.random() < .7:
                    c.drop("o", c.rng.choice(names))
                s.verify("o", c.rng.choice(MODES),
                         c.rng.choice(("raise", "print", "return")))
        yield _label("types and missing", *conv), f


# -- C07 ---------------------------------------------------------------------
BAD_VARS = ["Foo_Bar", "PRIVATEVar", "PRIVATE", "APIVar", "GLOBALVar",
            "GLOBAL_Var", "Data.Foo", "Data.Foo.Bar", "Data_Foo", "My_Data",
            "Private", "Apivar", "globalVar", "XAPI", "Title", "Comment",
            "SourcePosition2", "X", "Data", "DataX", "Data_", "MyPRIVATE",
            "Conventions", "DataType", "A_B_C", "Data_Foo_Bar"]
BAD_ATTS = ["Units", "Type", "LongName", "PRIVATE", "API", "GLOBAL", "x",
            "Data", "a_b"]
BAD_GLOBALS = ["Foo", "PRIVATE", "API", "GLOBAL", "x_y", "SourcePosition",
               "Data_IR", "Data.IR", "N", "ReceiverPosition", "lower"]


def c07(db):
    for conv in _convs(db):
        def f(c, conv=conv):
            """Names in files."""
            s, g = c.s, c.g
            if not g.make("b", conv, "filled"):
                return
            g0, sizes, v0 = g.file_parts("b")
            cases = [("v", n) for n in BAD_VARS] \
                + [("g", n) for n in BAD_GLOBALS] \
                + [("a", n) for n in BAD_ATTS] + [("ok", "")]
            for kind, n in c.some(cases, 16):
                gl, vs = dict(g0), dict(v0)
                if kind == "v":
                    vs[n] = (["I"], "f8", np.array([1.]), {})
                    if c.rng.random() < .3:
                        vs[n] = (["I"], "f8", np.array([1.]), {
                            c.rng.choice(BAD_ATTS): "text"})
                elif kind == "g":
                    gl[n] = "text"
                elif kind == "a":
                    k = c.rng.choice(list(vs))
                    d, t, x, a = vs[k]
                    if n in a:
                        continue
                    vs[k] = (d, t, x, dict(a, **{n: "text"}))
                s.foreign("f.sofa", gl, sizes, vs)
                s.read("o", "f", False, c.rng.random() < .5)
                if g.alive("o"):
                    s.verify("o", "read", c.rng.choice(
                        ["return", "raise", "print"]))
                if c.rng.random() < .4:
                    s.read_netcdf("n", "f")
                    if g.alive("n"):
                        s.verify("n", "read", "return")
                s.read("q", "f", True)
        yield _label("files", *conv), f

        def f(c, conv=conv):
            """Names in objects."""
            s, g = c.s, c.g
            if not g.make("b", conv):
                return
            for n in c.some(BAD_VARS, 8):
                s.copy("b", "o")
                if "_" not in n and "." not in n:
                    s.add_variable("o", n, 1, "double", "I")
                    if c.rng.random() < .6:
                        s.add_attribute("o", n + "_Units", "text")
                    if c.rng.random() < .4:
                        c.drop("o", n)
                else:
                    s.raw("o", n.replace(".", "_"), 1, "double", "I")
                s.verify("o", c.rng.choice(MODES), "return")
            for n in c.some(BAD_GLOBALS, 4):
                s.copy("b", "o")
                s.add_attribute("o", "GLOBAL_" + n.replace(".", "_"), "text")
                s.verify("o", "read", "return")
            for n in c.some(["Foo", "GLOBAL", "Units", "Data", "PRIVATE",
                             "Foo_Units", "SourcePosition_x_y",
                             "Data_IR_x_y", "Data_Foo_Units", "Data_Foo",
                             "_a", "b_"], 5):
                s.copy("b", "o")
                s.raw("o", n, "text", "attribute", None)
                s.verify("o", "read", "return")
            for n in c.some(["Foo_Bar", "Data_Foo", "FooData_", "a_b_c",
                             "GLOBAL_Foo", "Data_IR_x", "API_x", "_a"], 4):
                s.copy("b", "o")
                s.raw("o", n, [[1, 2, 3]], "double", "IC")
                s.verify("o", "read", "return")
        yield _label("objects", *conv), f

        def f(c, conv=conv):
            """Attributes of variables that are not contained."""
            s, g = c.s, c.g
            if not g.make("b", conv, c.rng.choice(["new", "custom"])):
                return
            atts = sorted({n.rsplit("_", 1)[0] for n in c.entries("b")
                           if "_" in n and not n.startswith("GLOBAL_")
                           and n.rsplit("_", 1)[0] in c.entries("b")})
            for n in atts:
                s.copy("b", "o")
                c.drop("o", n)
                s.verify("o", c.rng.choice(MODES), c.rng.choice(
                    ["return", "print", "raise"]))
            s.copy("b", "o")
            c.drop("o", *atts)
            s.verify("o", "read", "return")
        yield _label("no variable", *conv), f


# -- C08 ---------------------------------------------------------------------
def shapes(c, sh, n):
    """Shapes that are right, almost right, and wrong."""
    out = [tuple(sh)]
    for k in range(len(sh)):
        out += [tuple(sh[:k] + [sh[k] + 1] + sh[k + 1:]),
                tuple(sh[:k] + [1] + sh[k + 1:])]
        if sh[k] > 1:
            out.append(tuple(sh[:k] + [sh[k] - 1] + sh[k + 1:]))
    out += [tuple(p) for p in itertools.permutations(sh)]
    out += [tuple(sh) + (1,), tuple(sh[:-1]), (1,) + tuple(sh[:3]),
            tuple(sh) + (2,), (int(np.prod(sh)),), (), (1, 1), (2, 1),
            (1, 2), (1, 3), (3, 3), (1, 1, 1), (2, 2, 2, 2)]
    out = [o for o in dict.fromkeys(out) if 0 < len(o) <= 4]
    return [out[0]] + c.some(out[1:], n)


def c08(db):
    for conv in _convs(db):
        for kind in ("new", "custom"):
            def f(c, conv=conv, kind=kind):
                s, g = c.s, c.g
                if not g.make("b", conv, kind):
                    return
                for _ in range(3 if c.full else 1):
                    sizes = dict(g.sizes("b"))
                    s.copy("b", "p")
                    g.custom["p"] = dict(g.custom["b"])
                    sizes = g.fill("p", sizes)
                    s.verify("p", "write", "return")
                    rows = g.rows(conv)
                    for n, alts in g.dims_of("p").items():
                        text = "S" in alts[0]
                        dims = c.rng.choice(alts)
                        sh = g.shape(dims, sizes)
                        for new in shapes(c, sh, 2 if kind == "new" else 1):
                            s.copy("p", "o")
                            x = g.texts(new) if text else g.numbers(new)
                            if c.rng.random() < .3 and x.size == 1:
                                x = x.reshape(-1)[0].item()
                            c.force("o", n, x)
                            s.verify("o", c.rng.choice(MODES), "return")
                    if rows:
                        s.dimension("p", c.rng.choice("MREN"))
            yield _label("shapes", *conv, kind), f

        def f(c, conv=conv):
            """Several wrong shapes, and consistent data."""
            s, g = c.s, c.g
            if not g.make("b", conv, c.rng.choice(["new", "custom"])):
                return
            for _ in range(10 if c.full else 4):
                s.copy("b", "o")
                g.custom["o"] = dict(g.custom["b"])
                g.fill("o")
                s.verify("o", c.rng.choice(MODES), c.rng.choice(
                    ["return", "raise", "print"]))
                g.fill("o")
                var = list(g.dims_of("o"))
                for n in c.rng.sample(var, min(3, len(var))):
                    x = g.data("o")[n]
                    if isinstance(x, np.ndarray) and x.dtype.kind in "if":
                        c.force("o", n, g.numbers(c.rng.choice(
                            [x.shape[::-1], x.shape + (1,), (2, 2), (1,),
                             x.reshape(-1).shape])[:4]))
                s.verify("o", "write", "return")
        yield _label("combinations", *conv), f

        def f(c, conv=conv):
            """Vectors that have the right size but more than one axis."""
            s, g = c.s, c.g
            if not g.make("b", conv, c.rng.choice(["new", "custom"])):
                return
            s.add_variable("b", "Vector", 1, "double", "M")
            s.add_variable("b", "Line", [1, 2, 3, 4], "double", "y")
            g.custom["b"].update(Vector="M", Line="y")
            g.fill("b", dict(g.sizes("b"), M=4, R=4, E=4, N=4, Y=4))
            s.verify("b", "write", "return")
            for n, alts in g.dims_of("b").items():
                if all(len(a) > 1 for a in alts) or n not in g.data("b"):
                    continue
                for new in ((2, 2), (1, 4), (4, 1), (1, 2, 2), (2, 1, 2),
                            (1, 1, 4), (1, 4, 1)):
                    s.copy("b", "o")
                    c.force("o", n, g.numbers(new))
                    s.verify("o", c.rng.choice(MODES), "return")
        yield _label("vectors", *conv), f

    for t, dims in itertools.product(
            ("double", "string"),
            ("I", "M", "IC", "MC", "IS", "MS", "MRN", "RS", "MRS", "q",
             "wQ", "Iq", "IqM", "MREN", "qwk", "C", "CI", "CM", "RN",
             "NR", "IRNM")):
        if (t == "string") != ("S" in dims):
            continue

        def f(c, t=t, dims=dims):
            s, g = c.s, c.g
            for conv in c.some(g.stable, 3):
                if not g.make("b", conv):
                    continue
                sizes = g.fill("b")
                for d in dims:
                    sizes.setdefault(d.upper(), c.rng.choice([1, 2, 3]))
                sh = g.shape(dims, sizes)
                for new in shapes(c, sh, 5):
                    s.copy("b", "o")
                    x = g.texts(new) if t == "string" else g.numbers(new)
                    s.add_variable("o", "Own", x, t, dims)
                    s.verify("o", "write", "return")
                    if c.rng.random() < .3:
                        s.dimension("o", c.rng.choice(dims))
        yield _label("custom", t, dims), f



# -- C09 ---------------------------------------------------------------------
def cases_of(c, v):
    """The same value in upper and lower case, and other values."""
    mixed = "".join(ch.upper() if c.rng.random() < .5 else ch for ch in v)
    return [v, v.upper(), v.title(), mixed]


OTHER_VALUES = ["", "x", "free", "spherical harmonic", "cartesian ",
                "meters", "degree", "FIR ", "0.5", "free-field", "SOFA2",
                "metre, degree"]


def enrich(c, i):
    """Add optional data that the rules are about."""
    s, g = c.s, c.g
    data = g.data(i)
    extra = []
    for obj in ("Listener", "Receiver", "Source", "Emitter"):
        if obj + "View" not in data and obj + "Position" in data:
            extra += [(obj + "View", [[1, 0, 0]], "double", "IC"),
                      (obj + "View_Type", "cartesian"),
                      (obj + "View_Units", "metre"),
                      (obj + "Up", [[0, 0, 1]], "double", "IC")]
    extra += [("RoomTemperature", 293, "double", "I"),
              ("RoomTemperature_Units", "kelvin"),
              ("RoomVolume", 100, "double", "I"),
              ("RoomVolume_Units", "cubic metre"),
              ("RoomCornerA", [[0, 0, 0]], "double", "IC"),
              ("RoomCornerB", [[1, 2, 3]], "double", "IC"),
              ("RoomCorners", 0, "double", "I"),
              ("RoomCorners_Type", "cartesian"),
              ("RoomCorners_Units", "metre"),
              ("GLOBAL_RoomDescription", "nice"),
              ("GLOBAL_RoomGeometry", "file"),
              ("SourceTuningFrequency", 440, "double", "I"),
              ("SourceTuningFrequency_Units", "hertz")]
    if "Data_IR" in data:
        extra += [("Data_IR_ChannelOrdering", c.rng.choice(["acn", "sid"])),
                  ("Data_IR_ChannelNormalization", "n3d"),
                  ("Data_IR_Origin", "listener"),
                  ("Data_IR_Reference", "x")]
    for e in extra:
        if e[0] in g.data(i):
            continue
        if len(e) == 2:
            s.add_attribute(i, *e)
        else:
            s.add_variable(i, *e)
    g.custom[i].update({e[0]: e[3] for e in extra if len(e) > 2
                        and e[0] not in g.rows(g.conv(i))})


def rule_keys(db):
    return {k.replace(":", "_").replace(".", "_"): r
            for k, r in db["rules"].items()}


def c09(db):
    rules = rule_keys(db)
    alln = sorted({v for r in rules.values() for v in (r["value"] or [])})
    for conv in _convs(db):
        def f(c, conv=conv):
            """Values of all entries that have rules."""
            s, g = c.s, c.g
            if not g.make("b", conv):
                return
            if c.rng.random() < .7:
                enrich(c, "b")
            s.verify("b", "read", "return")
            for key in [k for k in c.entries("b") if k in rules]:
                values = rules[key]["value"] or []
                tests = [v2 for v in c.some(values, 3)
                         for v2 in c.some(cases_of(c, v), 2)]
                tests += c.some(OTHER_VALUES, 1) + c.some(alln, 1)
                for v in c.some(tests, 4):
                    s.copy("b", "o")
                    c.force("o", key, v)
                    s.verify("o", c.rng.choice(MODES), "return")
        yield _label("values", *conv), f

        def f(c, conv=conv):
            """Dependencies on the presence of other entries."""
            s, g = c.s, c.g
            if not g.make("b", conv):
                return
            enrich(c, "b")
            involved = set()
            for key, r in rules.items():
                deps = list(r.get("general", []))
                for d in r.get("specific", {}).values():
                    deps += [k for k in d if k != "_dimensions"]
                involved |= {key} | {
                    d.replace(":", "_").replace(".", "_") for d in deps}
            names = [n for n in c.entries("b") if n in involved
                     and n not in KEEP]
            for n in names:
                s.copy("b", "o")
                c.drop("o", n)
                s.verify("o", c.rng.choice(MODES), c.rng.choice(
                    ["return", "raise", "print"]))
            for _ in range(25 if c.full else 6):
                s.copy("b", "o")
                c.drop("o", *c.rng.sample(names, min(len(names), 3)))
                s.verify("o", "read", "return")
        yield _label("dependencies", *conv), f

        def f(c, conv=conv):
            """Dependencies on values of other entries, also on sizes."""
            s, g = c.s, c.g
            if not g.make("b", conv):
                return
            for t in c.some([k for k in rules if rules[k].get("specific")
                             and k in c.entries("b")], 99):
                spec = rules[t]["specific"]
                vals = c.some(list(spec), 4)
                for v in vals:
                    s.copy("b", "o")
                    g.custom["o"] = dict(g.custom["b"])
                    if c.rng.random() < .5:
                        enrich(c, "o")
                    if t not in c.entries("o"):
                        continue
                    c.force("o", t, c.rng.choice(
                        cases_of(c, v) if c.rng.random() < .5 else [v]))
                    deps = spec[v]
                    for k, ref in deps.items():
                        if k == "_dimensions":
                            continue
                        n = k.replace(":", "_").replace(".", "_")
                        if n in c.entries("o") and ref \
                                and c.rng.random() < .7:
                            u = c.rng.choice(ref)
                            c.force("o", n, c.rng.choice(
                                [u, u.upper(), u + " x", u.replace(
                                    ",", ""), "metre", "degree"]))
                    s.verify("o", c.rng.choice(MODES), "return")
                    if "_dimensions" in deps or c.rng.random() < .2:
                        for n in c.some((1, 2, 4, 6, 9), 3):
                            sizes = g.sizes("o")
                            for d in deps.get("_dimensions", {"R": 0}):
                                sizes[d] = n
                            g.fill("o", sizes)
                            s.verify("o", "read", "return")
        yield _label("specific", *conv), f

        def f(c, conv=conv):
            """Sizes that the rules forbid."""
            s, g = c.s, c.g
            if not g.make("b", conv):
                return
            for _ in range(12 if c.full else 5):
                s.copy("b", "o")
                g.custom["o"] = {}
                sizes = g.sizes("o")
                for d in "EN":
                    sizes[d] = c.rng.choice([1, 2, 5, 6, 7, 12])
                g.fill("o", sizes)
                s.verify("o", c.rng.choice(MODES), "return")
        yield _label("sizes", *conv), f

        def f(c, conv=conv):
            """Data that claims to follow other conventions."""
            s, g = c.s, c.g
            if not g.make("b", conv):
                return
            for other in c.some(g.std + g.dep, 4):
                s.copy("b", "o")
                c.force("o", "GLOBAL_SOFAConventions", other[0])
                c.force("o", "GLOBAL_SOFAConventionsVersion", other[1])
                s.verify("o", "read", c.rng.choice(["return", "raise"]))
                s.verify("o", "write", "return")
            for name in c.some([conv[0].lower(), conv[0].upper(), "Foo",
                                conv[0][:-1], ""], 2):
                s.copy("b", "o")
                c.force("o", "GLOBAL_SOFAConventions", name)
                s.verify("o", "read", "return")
            for v in c.some(["9.9", "1", "", "latest", conv[1] + "0"], 2):
                s.copy("b", "o")
                c.force("o", "GLOBAL_SOFAConventionsVersion", v)
                s.verify("o", "read", "return")
        yield _label("claims", *conv), f


# -- C10 ---------------------------------------------------------------------
SEPARATORS = [",", ", ", " ", ",  ", " ,", "; ", "-", "  ", ""]


def spellings(c, db, n):
    """Spellings of a list of units: good ones, and bad ones."""
    aliases = db["unit_aliases"]
    groups = {}
    for a, u in aliases.items():
        groups.setdefault(u, []).append(a)
    rng, out = c.rng, []
    for _ in range(n):
        ref = rng.choice([["metre"], ["degree", "degree", "metre"],
                          ["hertz"], ["second"], ["cubic metre"],
                          ["kelvin"], ["samples"]])
        units = [rng.choice(groups[u]) for u in ref]
        r = rng.random()
        if r < .1:
            units = units[:-1]
        elif r < .2:
            units = units + [rng.choice(units)]
        elif r < .3:
            rng.shuffle(units)
        elif r < .4:
            units[rng.randrange(len(units))] = rng.choice(
                ["inch", "rad", "m", "metrex", "met", "", "Hz", "sec"])
        elif r < .45:
            units[rng.randrange(len(units))] = rng.choice(list(aliases))
        seps = [rng.choice(SEPARATORS[:3] if rng.random() < .8
                           else SEPARATORS) for _ in units]
        text = units[0] if units else ""
        for u, sep in zip(units[1:], seps):
            text += sep + u
        r = rng.random()
        if r < .1:
            text = text.upper()
        elif r < .2:
            text = text.capitalize()
        elif r < .25:
            text = text + rng.choice([" ", ","])
        elif r < .3:
            text = rng.choice([" ", ","]) + text
        out.append(text)
    return out


def c10(db):
    for conv in _convs(db):
        def f(c, conv=conv):
            s, g = c.s, c.g
            if not g.make("b", conv):
                return
            if c.rng.random() < .6:
                enrich(c, "b")
            if c.rng.random() < .5:
                g.add_custom("b")
            units = [n for n in c.entries("b") if n.endswith("_Units")]
            for n in units:
                for text in spellings(c, db, 14 if c.full else 4) + [
                        c.rng.choice(["metre", "meters, Metres"])]:
                    s.set("b", n, text)
                    s.verify("b", c.rng.choice(MODES), "return")
            for n in c.some(units, 2):
                v = c.rng.choice(["Metre", "degree, Degree, metre", "Hertz",
                                  "µm", "ä", "2"])
                s.new("o", *conv, False, False)
                if c.g.alive("o") and n in c.entries("o"):
                    c.force("o", n, v)
                    for mode in MODES:
                        s.verify("o", mode, c.rng.choice(
                            ("return", "raise", "print")))
        yield _label("units", *conv), f

        def f(c, conv=conv):
            """Alternatives for the unit of the convention."""
            s, g = c.s, c.g
            if not g.make("b", conv):
                return
            aliases = db["unit_aliases"]
            groups = {}
            for a, u in aliases.items():
                groups.setdefault(u, []).append(a)
            for n in [m for m in c.entries("b") if m.endswith("_Units")]:
                ref = g.data("b")[n]
                if not isinstance(ref, str):
                    continue
                parts = ref.split(", ")
                for other in {", ".join(reversed(parts)),
                              ", ".join(parts[1:] + parts[:1]),
                              ", ".join(sorted(parts, reverse=True)),
                              ", ".join(parts + parts[:1]),
                              ", ".join(parts[:-1] or parts * 3)}:
                    c.force("b", n, other)
                    s.verify("b", c.rng.choice(MODES), "return")
                for _ in range(10 if c.full else 3):
                    new = [c.rng.choice(groups.get(p, [p])) for p in parts]
                    text = new[0]
                    for p in new[1:]:
                        text += c.rng.choice([",", ", ", " "]) + p
                    if c.rng.random() < .2:
                        text = text.upper()
                    c.force("b", n, text)
                    s.verify("b", c.rng.choice(MODES), "return")
                c.force("b", n, ref)
        yield _label("aliases", *conv), f

        def f(c, conv=conv):
            """Units of custom variables, and units that are no units."""
            s, g = c.s, c.g
            if not g.make("b", conv):
                return
            s.add_variable("b", "Temp", 1, "double", "I")
            s.add_attribute("b", "Temp_Units", "kelvin")
            s.add_attribute("b", "GLOBAL_Units", "metre")
            s.add_attribute("b", "Temp_UnitsX", "Metre")
            s.add_attribute("b", "GLOBAL_MyUnits", "Metre")
            s.add_variable("b", "BigUnits", ["Ab"], "string", "IS")
            for n, v in itertools.product(
                    ("Temp_Units", "GLOBAL_Units"),
                    ("celsius", "Kelvin", "KELVIN", "", "a b", "MILES",
                     "m/S", "µ", "é")):
                c.force("b", n, v)
                s.verify("b", c.rng.choice(MODES), c.rng.choice(
                    ("return", "return", "raise")))
                c.force("b", n, "metre")
        yield _label("custom units", *conv), f


# -- C11 ---------------------------------------------------------------------
def c11(db):
    for conv in _convs(db):
        def f(c, conv=conv):
            s, g = c.s, c.g
            for kind in ("new", "mandatory", "copy", "read", "custom",
                         "readnc", "filled"):
                if not g.make("o", conv, kind):
                    continue
                for mode, h in itertools.product(MODES, HANDLING):
                    s.verify("o", mode, h)
                s.write("o", "f" + kind)
                s.verify("o", "read", "raise")
        yield _label("modes", *conv), f

        def f(c, conv=conv):
            s, g = c.s, c.g
            if not g.make("o", conv, "filled"):
                return
            g.put("o", "f.sofa")
            for v in ("auto", True, False):
                s.read("p", "f", v)
                if g.alive("p"):
                    for mode, h in itertools.product(MODES, HANDLING):
                        s.verify("p", mode, h)
                    s.write("p", "g")
                s.new("n", *conv, False, v)
                s.new("n", *conv, True, v)
            s.read_netcdf("n", "f")
            if g.alive("n"):
                for mode in MODES:
                    s.verify("n", mode, "return")
            if g.alive("p"):
                e = s.upgrade("p")
                for t in e["out"]["targets"]:
                    s.copy("p", "q")
                    s.upgrade("q", t, c.rng.choice(["auto", False]))
                    for mode, h in itertools.product(MODES, HANDLING):
                        s.verify("q", mode, h)
                    s.write("q", "h")
            for other in c.some(g.dep + g.std, 3):
                s.copy("o", "z")
                c.force("z", "GLOBAL_SOFAConventions", other[0])
                c.force("z", "GLOBAL_SOFAConventionsVersion", other[1])
                s.verify("z", c.rng.choice(MODES), "return")
        yield _label("files", *conv), f


# -- C12 ---------------------------------------------------------------------
def spoil(c, i, k):
    """Break an object in k ways."""
    s, g, rng = c.s, c.g, c.rng
    rows = g.rows(g.conv(i))
    for _ in range(k):
        names = [n for n in c.entries(i) if n not in KEEP]
        n = rng.choice(names)
        row = rows.get(n)
        r = rng.random()
        if r < .2:
            c.drop(i, n)
        elif r < .35 and row:
            c.force(i, n, rng.choice(WRONG[row[4]]))
        elif r < .5 and row and row[3]:
            x = g.numbers(rng.choice([(2, 2), (1, 5), (3, 1, 2), (4,)]))
            c.force(i, n, x if row[4] == "double" else g.texts((2, 5)))
        elif r < .65:
            c.force(i, n if n.endswith("_Units") else rng.choice(
                [m for m in names if m.endswith("_Units")]),
                rng.choice(["Metre", "inch", "Degree, degree, metre"]))
        elif r < .75:
            c.force(i, rng.choice(
                [m for m in names if m.endswith("_Type")]
                + ["GLOBAL_RoomType"]),
                rng.choice(["Cartesian", "SPHERICAL", "wrong", "shoebox",
                            "spherical harmonics"]))
        elif r < .85:
            s.add_variable(i, rng.choice(["PRIVATEx", "Title", "APIx",
                                          "Good"]), 1, "double", "I")
        elif r < .9:
            c.force(i, "GLOBAL_DataType", rng.choice(["FIR", "TF", "SOS",
                                                      "fir", "Foo"]))
        elif r < .95:
            g.fill(i)
        else:
            s.add_attribute(i, "GLOBAL_Weather", "nice")


def c12(db):
    for conv in _convs(db):
        for broken in (0, 1, 2, 3):
            def f(c, conv=conv, broken=broken):
                s, g = c.s, c.g
                if not g.make("b", conv, c.rng.choice(
                        ["new", "custom", "mandatory", "filled", "read"])):
                    return
                for _ in range(6 if c.full else 2):
                    s.copy("b", "m")
                    g.custom["m"] = dict(g.custom["b"])
                    if broken:
                        spoil(c, "m", broken)
                    for h, mode in itertools.product(HANDLING, MODES):
                        s.copy("m", "o")
                        if c.rng.random() < .3:
                            s.protect("o", False)
                        s.verify("o", mode, h)
                        if c.rng.random() < .4:
                            s.verify("o", mode, c.rng.choice(HANDLING))
                        if c.rng.random() < .1:
                            s.probe("o")
            yield _label("handling", *conv, broken), f


# -- C13, C14, C15 -----------------------------------------------------------
NAMES = ["a", "b.sofa", "c.d", "e.SOFA", "x.nc", "UP", "v1.0", "ü", "b c",
         "sofa", "d.sofa.sofa", ".hid", "g.sof", "n_1.2.3.sofa"]


def c13(db):
    for conv in _convs(db):
        def f(c, conv=conv):
            s, g = c.s, c.g
            if not g.make("b", conv, c.rng.choice(["new", "custom"])):
                return
            for _ in range(16 if c.full else 5):
                s.copy("b", "o")
                g.custom["o"] = dict(g.custom["b"])
                if c.rng.random() < .8:
                    g.fill("o")
                if c.rng.random() < .5:
                    spoil(c, "o", c.rng.choice([1, 1, 2]))
                if c.rng.random() < .3:
                    s.protect("o", False)
                s.write("o", c.rng.choice(NAMES), c.rng.randrange(10))
                if c.rng.random() < .3:
                    s.verify("o", "write", "return")
        yield _label("write", *conv), f

        def f(c, conv=conv):
            """Objects of different content in the same file."""
            s, g = c.s, c.g
            if not g.make("o", conv, "custom"):
                return
            if not g.make("p", c.rng.choice(g.std), "filled"):
                return
            big = g.sizes("o", 9)
            g.fill("o", dict(big, M=7))
            s.write("o", "f", 0)
            s.write("p", "f.sofa", 9)
            s.write("p", "g")
            s.write("o", "f")
            c.force("o", "GLOBAL_Title", 1)
            s.write("o", "f")
            s.write("o", "new")
            s.remove(list(s.files)[0]) if s.files else None
            s.write("p", "f")
            s.write("p", "h.sofa", 1)
            s.check_db()
        yield _label("overwrite", *conv), f

    for name in sorted({n for n, _ in _convs(db)}):
        def f(c, name=name):
            """Outdated, deprecated, and unknown conventions."""
            s, g = c.s, c.g
            for conv in [x for x in g.std + g.dep if x[0] == name]:
                if not g.make("o", conv):
                    continue
                s.write("o", "f")
                for n, v in itertools.product(
                        (name, "Foo", ""), (conv[1], "0.1", "7.7")):
                    s.copy("o", "p")
                    c.force("p", "GLOBAL_SOFAConventions", n)
                    c.force("p", "GLOBAL_SOFAConventionsVersion", v)
                    s.write("p", "g")
        yield _label("conventions", name), f

    def f(c):
        s, g = c.s, c.g
        g.make("o", g.stable[0])
        s.write("o", "f")
        for n in NAMES:
            s.write("o", n)
            s.write("o", n, 9)
        c.drop("o", "GLOBAL_SOFAConventions")
        s.write("o", "f")
    yield "names", f


def writable(db):
    return [x for x in _convs(db) if x[0] not in
            db["deprecations"]["GLOBAL:SOFAConventions"]]


def objects_to_write(c, conv, k):
    s, g = c.s, c.g
    for n in range(k):
        if not g.make("o", conv, c.rng.choice(
                ["new", "custom", "custom", "completed", "mandatory",
                 "copy"])):
            return
        if c.rng.random() < .4:
            enrich(c, "o")
        if c.rng.random() < .9:
            g.fill("o", top=c.rng.choice([2, 4, 7]))
        for a in c.some([m for m in c.entries("o")
                         if m.startswith("GLOBAL_")], 4):
            if a.split("_")[1] in ("Title", "Comment", "History",
                                   "AuthorContact", "References", "Origin"):
                s.set("o", a, c.rng.choice(TEXT))
        if c.rng.random() < .3:
            opt = [m for m, r in g.rows(conv).items()
                   if "m" not in (r[2] or "") and m in c.entries("o")]
            for m in c.rng.sample(opt, min(len(opt), 2)):
                c.drop("o", m, *[a for a in c.entries("o")
                                 if a.startswith(m + "_")])
        yield n


def c14(db):
    for conv, half in itertools.product(writable(db), range(2)):
        def f(c, conv=conv, half=half):
            s, g = c.s, c.g
            for n in objects_to_write(c, conv, 12 if c.full else 4):
                s.write("o", "f", c.rng.randrange(10))
                if c.rng.random() < .2:
                    s.write("o", f"g{n}", c.rng.randrange(10))
        yield _label("layout", *conv, half), f
    for conv in writable(db):
        def f(c, conv=conv):
            """Strings of all kinds."""
            s, g = c.s, c.g
            if not g.make("o", conv):
                return
            for dims in ("IS", "MS", "RS", "MRS", "MRES"):
                s.add_variable("o", "Text" + dims, ["x"], "string", dims)
                g.custom["o"]["Text" + dims] = dims
            for _ in range(6 if c.full else 2):
                sizes = g.fill("o")
                for dims in ("IS", "MS", "RS", "MRS", "MRES"):
                    sh = g.shape(dims, sizes)
                    n = int(np.prod(sh))
                    x = np.array([c.rng.choice(TEXT[:-1] + [
                        "é" * 9, "long" * 12, "0", "a" * 3]) for _ in range(
                            n)]).reshape(sh)
                    r = c.rng.random()
                    if r < .2 and x.ndim < 3:
                        x = x.tolist()
                    elif r < .4:
                        x = np.squeeze(x)
                        x = x if x.ndim else str(x)
                    elif r < .5 and all(ord(ch) < 128 for t in x.reshape(-1)
                                        for ch in t):
                        x = x.astype("S")
                    s.set("o", "Text" + dims, x)
                s.write("o", "f", c.rng.randrange(10))
        yield _label("strings", *conv), f

        def f(c, conv=conv):
            """Numbers of all kinds."""
            s, g = c.s, c.g
            if not g.make("o", conv):
                return
            for dtype in ("float64", "float32", "float16", "int64", "int32",
                          "int16", "int8", ">f8", ">i4"):
                g.fill("o")
                for n, x in list(g.data("o").items()):
                    if isinstance(x, np.ndarray) and x.dtype.kind in "if":
                        new = np.arange(x.size).reshape(x.shape) % 100
                        c.force("o", n, new.astype(dtype))
                s.write("o", "f", c.rng.randrange(10))
        yield _label("numbers", *conv), f


def c15(db):
    for conv, part in itertools.product(writable(db), range(3)):
        def f(c, conv=conv, part=part):
            s, g = c.s, c.g
            for n in objects_to_write(c, conv, 8 if c.full else 2):
                if s.write("o", f"f{n}", c.rng.randrange(10))["exc"]:
                    continue
                s.read("p", f"f{n}")
                if not g.alive("p"):
                    continue
                s.equals("o", "p")
                s.verify("p", "write", "return")
                s.roundtrip("o", "p")
                s.probe("p")
                if s.write("p", f"g{n}")["exc"]:
                    continue
                s.read("q", f"g{n}", c.rng.choice([True, False]))
                if g.alive("q"):
                    s.roundtrip("p", "q")
                    s.equals("p", "q")
                    s.roundtrip("o", "q")
                s.read_netcdf("r", f"g{n}")
                if g.alive("r"):
                    s.verify("r", "write", "return")
                    s.equals("o", "r")
        yield _label("round trip", *conv, part), f


    for conv in writable(db):
        def f(c, conv=conv):
            """Custom data of all kinds of dimensions."""
            s, g = c.s, c.g
            if not g.make("o", conv):
                return
            s.copy("o", "base")
            sizes = g.measure("o")
            dims = ["MM", "RR", "IM", "MI", "II", "MRE", "EMR", "qq", "wq",
                    "qM", "Mq", "IIN", "NIM", "CC", "MCM", "q", "I", "M",
                    "CM", "RCI", "IMRE", "MRMR", "qwM"]
            texts = ["MS", "IS", "qS", "MMS", "RMS", "IIS", "qMS", "CS"]
            for k in range(6 if c.full else 3):
                s.copy("base", "o")
                size = dict(sizes, Q=c.rng.choice([1, 2, 4]), W=3)
                for n, d in enumerate(c.rng.sample(dims, 4)
                                      + c.rng.sample(texts, 2)):
                    sh = [1 if x == "S" else size.get(x.upper(), 1)
                          for x in d]
                    x = g.texts(sh) if "S" in d else g.numbers(sh)
                    s.add_variable("o", "own" + "ABCDEF"[n], x,
                                   "string" if "S" in d else "double", d)
                s.verify("o", "write", "return")
                if s.write("o", "f")["exc"]:
                    continue
                s.read("p", "f")
                if g.alive("p"):
                    s.roundtrip("o", "p")
                    s.equals("o", "p")
                    s.verify("p", "write", "return")
                    s.write("p", "g")
                    s.read("q", "g")
                    if g.alive("q"):
                        s.roundtrip("p", "q")
        yield _label("custom dimensions", *conv), f


# -- C16 ---------------------------------------------------------------------
def vary_file(c, g0, sizes, v0):
    """Another file: data added, removed, changed."""
    rng = c.rng
    g, dims, v = dict(g0), dict(sizes), dict(v0)
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        r = rng.random()
        if r < .15:
            n = rng.choice(list(v))
            v.pop(n)
        elif r < .3:
            g.pop(rng.choice([k for k in g if not k.startswith("SOFAConv")]))
        elif r < .4:
            n = rng.choice(list(v))
            d, t, x, a = v[n]
            if a:
                a = dict(a)
                a.pop(rng.choice(list(a)))
                v[n] = (d, t, x, a)
        elif r < .5:
            g[rng.choice(["Weather", "History", "Comment", "Title", "x_y",
                          "Number"])] = rng.choice(TEXT[1:])
        elif r < .6:
            n = rng.choice(list(v))
            d, t, x, a = v[n]
            v[n] = (d, t, x, dict(a, **{rng.choice(
                ["Remark", "Units", "Type", "Info2", "name", "shape",
                 "dimensions"]): rng.choice(
                    TEXT[1:] + ["Metre", "Degrees, Degrees, Metres"])}))
            if rng.random() < .3:
                v[n][3][rng.choice(["Number", "size", "Remark"])] = \
                    rng.choice([5, 2.5, np.float32(1.5)])
        elif r < .7:
            names = ["Temp", "Data.Own", "Custom2", "Data.Real", "lower",
                     "SourceURI", "KText"]
            d = rng.choice([["I"], ["M"], ["M", "R"], ["M", "R", "N"],
                            ["I", "C"], ["R", "M"], ["E", "I"],
                            ["M", "R", "E", "N"]])
            sh = [dims[k] for k in d]
            t = rng.choice(["f8", "f8", "S1", "i4", "f4", "i2"])
            if t != "S1":
                x = c.g.numbers(sh)
                x = x.astype(t) if t[0] == "f" else x.astype(int) % 1000
                v[rng.choice(names)] = (d, t, x.astype(t), {})
            else:
                x = chars(c.g.texts(sh), dims["S"])
                v[rng.choice(names)] = (d + ["S"], t, x, {"Lang": "en"})
            if rng.random() < .2:      # variables without dimensions
                n, t = rng.choice([("Alone", "f8"), ("Letter", "S1")])
                v[n] = ([], t, np.array(
                    c.g.number() if t == "f8"
                    else rng.choice([b"q", b""])), {})
            if rng.random() < .2:      # another dimension of characters
                d, e = rng.choice("IMR"), rng.choice("CNY")
                dims.setdefault("Y", rng.choice([1, 4, 9]))
                v["Labels"] = ([d, e], "S1", chars(
                    c.g.texts([dims[d]]), dims[e]), {})
        elif r < .8:
            dims.setdefault("Y", rng.choice([1, 2, 5]))
            v["Own"] = (rng.choice([["Y"], ["Y", "I"], ["M", "Y"]]), "f8",
                        None, {})
            d = v["Own"][0]
            v["Own"] = (d, "f8", c.g.numbers(
                [dims[k] for k in d]).astype("f8"), {})
        elif r < .85:
            n = rng.choice(list(v))
            d, t, x, a = v[n]
            if t == "f8":
                v[n] = (d, t, c.g.numbers(x.shape).astype("f8"), a)
                if rng.random() < .4:
                    hole = np.array([rng.random() < .3 for _ in range(x.size)])
                    v[n] = (d, t, np.ma.array(v[n][2], mask=hole.reshape(
                        x.shape)), a)
        elif r < .9:
            g["Number"] = rng.choice([5, 2.5, np.float32(1.5)])
        elif r < .95:
            n = rng.choice(list(v))
            d, t, x, a = v[n]
            if t == "f8" and len(d) > 1:
                v[n] = (d[::-1], t, np.ascontiguousarray(x.T), a)
        else:
            g["SOFAConventionsVersion"] = rng.choice(["9.9", "1.0", "2.0",
                                                      "0.9", "latest"])
    return g, dims, v


def foreign_files(c, conv, k):
    s, g = c.s, c.g
    for n in range(k):
        if not g.make("b", conv, c.rng.choice(["new", "custom",
                                               "mandatory"])):
            return
        g.fill("b", top=3)
        parts = g.file_parts("b")
        s.foreign(f"f{n}.sofa", *vary_file(c, *parts))
        yield n


def holed(c, v, *names):
    """Variables with missing data."""
    out = dict(v)
    for n in names:
        d, t, x, a = v[n]
        hole = np.array([c.rng.random() < .5
                         for _ in range(x.size)]).reshape(x.shape)
        hole.reshape(-1)[c.rng.randrange(x.size)] = True
        out[n] = (d, t, np.ma.array(x, mask=hole), a)
    return out


def c16(db):
    for conv, half in itertools.product(_convs(db), range(2)):
        def f(c, conv=conv, half=half):
            s, g = c.s, c.g
            for n in foreign_files(c, conv, 12 if c.full else 4):
                for v in ("auto", True, False):
                    s.read("o", f"f{n}" + c.rng.choice(["", ".sofa"]), v,
                           c.rng.random() < .7)
                if g.alive("o"):
                    s.probe("o")
                    s.read("p", f"f{n}", False)
                    s.verify("o", c.rng.choice(MODES), "return")
                    if c.rng.random() < .3:
                        s.add_missing("o")
                        s.write("o", "w")
            s.read("m", "missing")
            s.read("m", "missing.sofa", False)
            # files that lack single attributes and variables
            if not g.make("b", conv, "new"):
                return
            gl, dims, v = g.file_parts("b")
            lacks = c.some([n for n in gl if not n.startswith("SOFAConv")],
                           99 if c.full else 3)
            lacks = ["Conventions"] + lacks if half else lacks
            for n in lacks:
                s.foreign("l.sofa", {k: x for k, x in gl.items() if k != n},
                          dims, v)
                s.read("o", "l", False)
                s.read("o", "l", c.rng.choice(["auto", True]))
            for n in c.some(list(v), 99 if c.full else 2):
                s.foreign("l.sofa", gl, dims, {
                    k: x for k, x in v.items() if k != n})
                s.read("o", "l", False)
            # files with missing data
            for n in c.some([k for k in v if v[k][1] == "f8"],
                            99 if c.full else 3):
                s.foreign("l.sofa", gl, dims, holed(c, v, n))
                s.read("o", "l", c.rng.choice([False, "auto"]))
                s.read_netcdf("n", "l")
        yield _label("read", *conv, half), f

    def f(c):
        s, g = c.s, c.g
        g.make("b", g.stable[0])
        gl, dims, v = g.file_parts("b")
        for name, version in itertools.product(
                ("Foo", gl["SOFAConventions"], "generaltf", ""),
                ("1.0", "2.0", "9.9", "", "1", "latest")):
            s.foreign("f.sofa", dict(
                gl, SOFAConventions=name, SOFAConventionsVersion=version),
                dims, v)
            for check in ("auto", True, False):
                s.read("o", "f", check)
            s.read_netcdf("n", "f")
        for n in ("SOFAConventions", "SOFAConventionsVersion"):
            s.foreign("f.sofa", {k: x for k, x in gl.items() if k != n},
                      dims, v)
            s.read("o", "f")
            s.read_netcdf("n", "f")
        s.foreign("f.nc", gl, dims, v)
        s.read("o", "f")
        s.read("o", "f.nc")
        s.foreign("g.nc.sofa", gl, dims, v)
        s.read("o", "g.nc")
        s.foreign("v1.0.sofa", gl, dims, v)
        s.read("o", "v1.0")
    yield "conventions", f


# -- C17 ---------------------------------------------------------------------
def c17(db):
    for conv, half in itertools.product(_convs(db), range(2)):
        def f(c, conv=conv, half=half):
            s, g = c.s, c.g
            if not g.make("b", conv, c.rng.choice(["new", "custom"])):
                return
            g.fill("b", top=3)
            gl, dims, vs = g.file_parts("b")
            for n in range(8 if c.full else 3):
                fg, fd, fv = vary_file(c, gl, dims, vs)
                r = c.rng.random()
                if r < .2:
                    fg["SOFAConventions"] = c.rng.choice(
                        ["Foo", "generaltf", "GeneralTF"])
                elif r < .3:
                    fg.pop("SOFAConventions", None)
                    fg.pop("SOFAConventionsVersion", None)
                elif r < .4:
                    fg["SOFAConventionsVersion"] = "7.7"
                s.foreign(f"f{n}.sofa", fg, fd, fv)
                s.read_netcdf("o", f"f{n}")
                if not g.alive("o"):
                    continue
                s.probe("o")
                if not all(k in c.entries("o") for k in KEEP):
                    continue
                if c.rng.random() < .4:
                    s.verify("o", "read", "return")
                    s.inspect("o")
                # repair: all that the base file says
                base = g.data("b")
                custom = g.custom["b"]
                s.protect("o", False)
                for k in c.entries("o"):
                    if k not in base:
                        s.delete("o", k)
                for k, x in base.items():
                    if k not in custom and not any(
                            k.startswith(m + "_") for m in custom) \
                            and (k in c.entries("o") or k in g.rows(conv)):
                        s.set("o", k, x)
                s.protect("o", True)
                s.add_missing("o", c.rng.random() < .8, False)
                s.verify("o", "read", "return")
                s.probe("o")
                if s.write("o", "w")["exc"]:
                    continue
                s.read("p", "w")
                if g.alive("p"):
                    s.roundtrip("o", "p")
                    s.equals("o", "p")
            s.read_netcdf("m", "missing")
        yield _label("repair", *conv, half), f


# -- C18 ---------------------------------------------------------------------
def c18(db):
    for conv, half in itertools.product(_convs(db), range(2)):
        def f(c, conv=conv, half=half):
            s, g = c.s, c.g
            files = [f"f{n}" for n in foreign_files(
                c, conv, 8 if c.full else 3)]
            if g.make("o", conv, "custom"):
                g.fill("o")
                gl, dims, v = g.file_parts("o")
                for n in list(v) + ["Twin"]:
                    if c.rng.random() < .3 or n == "Twin":
                        d, t, x, a = v.get(n, (["I"], "f8", np.ones(1), {}))
                        for m in (n.lower(), n.upper()):
                            if m in v:
                                continue
                            d2 = ["I"] + d[len(d):]
                            v[m] = (d2, "f8", np.array([float(len(v))]),
                                    {k.upper(): y + "!" for k, y in
                                     a.items() if isinstance(y, str)})
                for n in list(gl):
                    if isinstance(gl[n], str) and c.rng.random() < .3:
                        gl.setdefault(n.lower(), "other " + gl[n])
                s.foreign("twins.sofa", gl, dims, v)
                files.append("twins")
                s.write("o", "w")
                if "w.sofa" in s.files:
                    files.append("w")
            for path in files:
                s.read_netcdf("o", path)
                names = c.entries("o") if g.alive("o") else []
                more = list(g.rows(conv)) + [
                    "GLOBAL_Nothing", "Nothing", "Data_Nothing", "N_Foo",
                    "SourcePosition_Nothing", "Nothing_Units", "sourceView",
                    "Data_IR_Nothing", "Data", "Units", "GLOBAL_", "Data_"]
                s.stream(path, names + c.some(more, 25),
                         ["M", "R", "E", "N", "C", "I", "S", "Q", "Z", "m",
                          "X", ""])
                s.stream_list(path)
            s.stream("missing", ["GLOBAL_Title"], ["M"])
        yield _label("stream", *conv, half), f


# -- C19 ---------------------------------------------------------------------
def moved(db, conv):
    """Entries whose data is moved when upgrading a convention."""
    rule = db["upgrade"].get(conv[0], {"from_to": []})
    return {n.replace(":", "_").replace(".", "_") for _, _, key
            in rule["from_to"] for n, m in rule[key]["move"].items()
            if m["moveaxis"] is not None}


def flatten(c, i, names):
    """Data without some of the singleton dimensions at the end."""
    for n in sorted(names & set(c.entries(i))):
        x = np.array(c.g.data(i)[n])
        if c.rng.random() < .15:
            c.force(i, n, c.rng.choice(["text", "", ["a", "b"], [["a"]]]))
        elif x.dtype.kind in "if":
            sh = [c.rng.choice([1, 2, 3]) for _ in range(c.rng.randrange(
                1, 4))]
            c.force(i, n, c.g.numbers(sh))


def c19(db):
    for conv in _convs(db):
        for kind in ("new", "mandatory", "custom", "copy", "read", "readnc",
                     "completed", "filled"):
            if conv[0] not in db["upgrade"] and kind not in (
                    "new", "readnc", "custom"):
                continue

            def f(c, conv=conv, kind=kind):
                s, g = c.s, c.g
                if not g.make("b", conv, kind):
                    return
                if kind in ("custom", "copy"):
                    g.fill("b")
                e = s.upgrade("b")
                for wrong in ("Foo", "Foo_1.0", conv[0], "_".join(conv), "",
                              "GeneralTF_2.0"):
                    s.upgrade("b", wrong, c.rng.choice(["auto", True,
                                                        False]))
                rows = g.rows(conv)
                for t in e["out"]["targets"]:
                    for verify in ("auto", True, False):
                        for _ in range(4 if c.full else 2):
                            s.copy("b", "o")
                            opt = [n for n in c.entries("o") if n in rows
                                   and "m" not in (rows[n][2] or "")]
                            s.protect("o", c.rng.random() < .8)
                            for n in c.rng.sample(opt, c.rng.randrange(
                                    min(4, len(opt) + 1))):
                                s.delete("o", n)
                            if c.rng.random() < .3:
                                mand = [n for n in c.entries("o")
                                        if n not in KEEP]
                                c.drop("o", c.rng.choice(mand))
                            if c.rng.random() < .4:
                                flatten(c, "o", moved(db, conv))
                            s.upgrade("o", t, verify)
                            if s.objs["o"].protected is not True \
                                    or c.rng.random() < .5:
                                s.probe("o")
                            s.upgrade("o")
                            s.upgrade("o", t)
                            s.verify("o", "read", "return")
                            if c.rng.random() < .3:
                                s.info("o", "all")
                                s.write("o", "f")
                s.upgrade("b", None, c.rng.choice(["auto", False]))
                for other in c.some(g.dep + g.std, 2):
                    s.copy("b", "o")
                    c.force("o", "GLOBAL_SOFAConventions", other[0])
                    c.force("o", "GLOBAL_SOFAConventionsVersion", other[1])
                    s.upgrade("o")
                    s.upgrade("o", "Foo_1.0")
                s.check_db()
            yield _label("upgrade", *conv, kind), f


# -- C20 ---------------------------------------------------------------------
EXCLUDE = [None, "GLOBAL", "ATTR", "DATE", "global", "Attr", "date", "foo",
           "", "DATES"]


def differ(c, i):
    """Make a single difference (or none)."""
    s, g, rng = c.s, c.g, c.rng
    rows = g.rows(g.conv(i))
    n = rng.choice([m for m in c.entries(i) if m not in KEEP])
    x = g.data(i)[n]
    row = rows.get(n)
    r = rng.random()
    if r < .15:
        c.drop(i, n)
    elif r < .25:
        t = rng.choice([("Temp", 1, "double", "I"), ("DateX", 1, "double",
                                                     "I"),
                        ("Label", "x", "string", "IS")])
        s.add_variable(i, *t)
    elif r < .32:
        s.add_attribute(i, rng.choice(["GLOBAL_Weather", "GLOBAL_DateOf",
                                       n + "_Remark"]), "x")
    elif isinstance(x, str) and (row is None or row[4] == "attribute"):
        c.force(i, n, rng.choice([x + "x", x.upper(), x + " ", "x", x]))
    elif isinstance(x, np.ndarray) and x.dtype.kind in "if" and x.size:
        y = x.astype("f8") if x.dtype.itemsize >= 4 else x.astype("f4")
        k = rng.randrange(x.size)
        what = rng.random()
        if what < .25:
            y.reshape(-1)[k] += 1
        elif what < .4:
            y.reshape(-1)[k] *= 1 + 1e-4
        elif what < .5:
            y.reshape(-1)[k] *= 1 + 1e-9
        elif what < .6:
            y = y[..., np.newaxis]
        elif what < .7 and y.ndim == 2:
            y = y.T
        elif what < .8:
            y = y.reshape(-1)
        elif what < .9:
            y = np.concatenate([y, y])
        else:
            y = y.reshape(-1)[0].item()
        c.force(i, n, y)
    elif isinstance(x, np.ndarray) and x.dtype.kind == "U":
        k = rng.randrange(x.size)
        y = x.astype("U60")
        y[np.unravel_index(k, y.shape)] = rng.choice(["other", str(
            y.reshape(-1)[k])])
        if rng.random() < .3:
            y = y.reshape(-1).tolist()
        c.force(i, n, y)
    elif isinstance(x, str):
        c.force(i, n, rng.choice([x, [x], np.array([[x]]), x + "x",
                                  [x, x]]))
    else:
        c.force(i, n, rng.choice([x, [[x]], float(x), x + 1, [x, x],
                                  x * (1 + 1e-9), np.array([[[x]]])]))


def c20(db):
    for conv, half in itertools.product(_convs(db), range(2)):
        def f(c, conv=conv, half=half):
            s, g = c.s, c.g
            if not g.make("a", conv, c.rng.choice(["new", "custom",
                                                   "read"])):
                return
            if c.rng.random() < .7:
                g.fill("a")
            for _ in range(30 if c.full else 10):
                s.copy("a", "b")
                g.custom["b"] = dict(g.custom["a"])
                for _ in range(c.rng.choice([0, 1, 1, 1, 2])):
                    differ(c, "b")
                x = c.rng.choice(EXCLUDE)
                v = c.rng.random() < .7
                s.equals("a", "b", x, v)
                s.equals("b", "a", x, v)
                if c.rng.random() < .3:
                    s.equals("b", "a", c.rng.choice(EXCLUDE), not v)
                if c.rng.random() < .2:
                    s.equals("b", "b")
        yield _label("equals", *conv, half), f

    def f(c):
        s, g = c.s, c.g
        for conv in c.some(g.std + g.dep, 14):
            g.make("a", conv)
            for other in c.some(g.std + g.dep, 5):
                g.make("b", other)
                s.equals("a", "b", c.rng.choice(EXCLUDE))
                s.equals("b", "a", c.rng.choice(EXCLUDE[:7]), False)
    yield "conventions", f

    for t in ("double", "string"):
        def f(c, t=t):
            """The same name with another type."""
            s, g = c.s, c.g
            g.make("a", ("GeneralTF", "2.0"))
            s.copy("a", "b")
            vals = {"double": (1, "I"), "string": ("1", "IS")}
            s.add_variable("a", "Own", vals[t][0], t, vals[t][1])
            for u in ("double", "string"):
                s.copy("b", "p")
                s.add_variable("p", "Own", vals[u][0], u, vals[u][1])
                s.equals("a", "p")
                s.equals("p", "a", "ATTR")
                s.equals("p", "a", "GLOBAL", False)
            for x, y in itertools.product(
                    ([[1, 2, 3]], [1, 2, 3], [[1], [2], [3]], [1, 2],
                     [1, 2, 4], 1, [[[1, 2, 3]]], [1., 2., 3.],
                     [1, 2, 3.0000001], [1, 2, 3.000001], [0, 2, 3],
                     [1e-9, 2, 3]), repeat=2):
                s.copy("b", "p")
                s.copy("b", "q")
                s.add_variable("p", "Own", x, "double", "q")
                s.add_variable("q", "Own", y, "double", "q")
                s.equals("p", "q", None, c.rng.random() < .5)
            for x, y in itertools.product(
                    ("a", ["a"], ["a", "b"], [["a"], ["b"]], ["a", "b "],
                     ["a", "B"], ["b", "a"], np.array([b"a", b"b"]),
                     ["a", "b", "c"], ["ab"]), repeat=2):
                s.copy("b", "p")
                s.copy("b", "q")
                s.add_variable("p", "Own", x, "string", "qS")
                s.add_variable("q", "Own", y, "string", "qS")
                s.equals("p", "q", None, c.rng.random() < .5)
        yield _label("types", t), f

    for conv in _convs(db):
        def f(c, conv=conv):
            """What is excluded depends on the exact names."""
            s, g = c.s, c.g
            if not g.make("a", conv):
                return
            c.force("a", "GLOBAL_Title", "x")
            for n, t in (("candidates", "double"), ("update", "string"),
                         ("Dated", "double"), ("globals", "double"),
                         ("myGLOBAL", "string"), ("GLOBAL_Mandate", None),
                         ("GLOBAL_DateOf", None), ("candidates_Date", None),
                         ("Dated_Units", None), ("update_Info", None),
                         ("globals_Units", None), ("myGLOBAL_Info", None),
                         ("myGLOBAL_DateOf", None)):
                if t:
                    s.add_variable("a", n, 1 if t == "double" else "x", t,
                                   "I" if t == "double" else "IS")
                else:
                    s.add_attribute("a", n, "text")
            more = [n for n in c.entries("a") if "date" in n.lower()
                    or "global" in n.lower()]
            own = more + ["candidates", "update", "Dated_Units",
                          "update_Info"]
            for n in c.some(sorted(set(own)), 12):
                s.copy("a", "b")
                x = g.data("b")[n]
                if isinstance(x, str):
                    c.force("b", n, x + "2")
                elif "U" in np.asarray(x).dtype.kind:
                    c.force("b", n, "other")
                else:
                    c.force("b", n, 2)
                for x in ("GLOBAL", "DATE", "ATTR", None):
                    s.equals("a", "b", x)
                    s.equals("b", "a", x, False)
                if c.rng.random() < .3 and n not in g.rows(conv):
                    s.delete("b", n)
                    for x in ("GLOBAL", "DATE", "ATTR", None):
                        s.equals("a", "b", x)
                        s.equals("b", "a", x)
        yield _label("excluded", *conv), f

        def f(c, conv=conv):
            """The order in which data was added has no meaning."""
            s, g = c.s, c.g
            if not g.make("a", conv, c.rng.choice(["new", "custom"])):
                return
            s.copy("a", "b")
            own = [("Own", 1, "double", "I"), ("Own_Units", "metre"),
                   ("Two", 2, "double", "I"), ("Text", "x", "string", "IS"),
                   ("GLOBAL_Two", "y")]

            def add(i, o):
                if len(o) == 2:
                    s.add_attribute(i, *o)
                else:
                    s.add_variable(i, *o)
            for o in own:
                add("a", o)
            for o in own[2:] + own[:2]:
                add("b", o)
            for x in (None, "GLOBAL", "DATE", "ATTR"):
                s.equals("a", "b", x)
                s.equals("b", "a", x)
            rows = g.rows(conv)
            names = [n for n in c.entries("b") if n in rows
                     and n not in KEEP]
            for n in c.some(names, 4):
                x = g.data("b")[n]
                s.protect("b", False)
                s.delete("b", n)
                s.set("b", n, x)
                s.protect("b", True)
                s.equals("a", "b")
                s.equals("b", "a", c.rng.choice(EXCLUDE))
            s.probe("b")
        yield _label("order", *conv), f


# -- C21 ---------------------------------------------------------------------
def poke_all(c, i, n=99):
    g = c.g
    for k, x in c.some(list(g.data(i).items()), n):
        if isinstance(x, np.ndarray) and x.dtype.kind in "if" and x.size \
                and x.flags.writeable:
            c.s.poke(i, k, c.rng.randrange(x.size), c.rng.randrange(
                100, 120))


def c21(db):
    yield from walks(db, 30, 50)
    for conv in _convs(db):
        def f(c, conv=conv):
            s, g = c.s, c.g
            if not g.make("a", conv, "custom"):
                return
            g.fill("a")
            s.protect("a", c.rng.random() < .7)
            s.copy("a", "b")
            s.equals("a", "b")
            s.probe("b")
            s.new("n", *conv)
            s.new("m", *conv, True)
            s.add_missing("m")
            if g.make("w", conv, "filled"):
                g.put("w", "f.sofa")
                s.read("r", "f", False)
                s.read("r2", "f", False)
                s.read_netcdf("r3", "f")
            for i in ("b", "n", "m", "r", "r2", "a", "w", "r3"):
                if not g.alive(i):
                    continue
                poke_all(c, i)
                if i == "r3":
                    continue
                s.add_variable(i, "Fresh", [1, 2], "double", "q")
                s.add_attribute(i, "Fresh_Units", "metre")
                c.drop(i, c.rng.choice([n for n in c.entries(i)
                                        if n not in KEEP]))
                s.add_missing(i)
                s.verify(i, "read", "return")
                s.probe(i)
            for i in ("a", "b", "n", "r"):
                if not g.alive(i):
                    continue
                for n in ("Fresh_Units", "Fresh"):
                    s.delete(i, n)
                s.write(i, "g" + i)
                e = s.upgrade(i)
                if e["out"]["targets"]:
                    s.upgrade(i, e["out"]["targets"][0], False)
                poke_all(c, i, 5)
            for i in ("a", "b", "n", "m", "r", "r2"):
                if g.alive(i):
                    s.probe(i)
                    s.info(i, "all")
                    s.verify(i, "write", "return")
            s.new("z", *conv)
            s.check_db()
        yield _label("independent", *conv), f

        def f(c, conv=conv):
            """Default values are never shared."""
            s, g = c.s, c.g
            for i in ("a", "b"):
                s.new(i, *conv, True)
                if not g.alive(i):
                    return
                c.drop(i, *[n for n in c.entries(i) if n not in KEEP][::2])
            s.add_missing("a")
            s.verify("b", "read", "return")
            s.add_missing("b")
            poke_all(c, "a")
            s.new("x", *conv)
            c.drop("x", *[n for n in c.entries("x") if n not in KEEP])
            s.add_missing("x")
            poke_all(c, "x")
            s.new("y", *conv)
            s.copy("y", "z")
            poke_all(c, "y")
            s.equals("y", "z")
        yield _label("defaults", *conv), f


# -- C24 ---------------------------------------------------------------------
FILTERS = ["all", "mandatory", "optional", "read only", "data", "nothing",
           "GLOBAL", "Data", "ALL", "", "read-only", "Units"]


def c24(db):
    for conv, half in itertools.product(_convs(db), range(2)):
        def f(c, conv=conv, half=half):
            s, g = c.s, c.g
            for n in range(5 if c.full else 2):
                if not g.make("o", conv, c.rng.choice(
                        ["new", "custom", "mandatory", "completed"])):
                    return
                if c.rng.random() < .5:
                    enrich(c, "o")
                g.fill("o", top=c.rng.choice([2, 4, 8]))
                s.inspect("o")
                s.inspect("o", f"i{n}.txt", c.rng.choice(
                    ["ignore", "return", "print"]))
                for what in c.some(FILTERS, 6):
                    s.info("o", what)
                for what in c.some(c.entries("o"), 5):
                    s.info("o", what)
                if not s.write("o", "f")["exc"]:
                    s.stream_inspect("f", c.rng.choice([None, "s.txt"]))
                    s.read("p", "f")
                    s.inspect("p", "p.txt")
                    s.info("p", "all")
                    s.stream_list("f")
            # files of others
            for n in foreign_files(c, conv, 6 if c.full else 3):
                s.stream_inspect(f"f{n}", c.rng.choice([None, "s.txt"]))
                s.stream_list(f"f{n}")
        yield _label("inspect", *conv, half), f


# -- C25 ---------------------------------------------------------------------
def c25(db):
    for conv, half in itertools.product(_convs(db), range(2)):
        def f(c, conv=conv, half=half):
            s, g = c.s, c.g
            if not g.make("o", conv, c.rng.choice(
                    ["new", "custom", "readnc", "read", "mandatory"])):
                return
            for n in range(10 if c.full else 4):
                for d in c.some("MRENCISQW", 3):
                    s.dimension("o", d)
                s.dimension("o", c.rng.choice(["X", "m", "", "MR", "Z"]))
                s.list_dimensions("o")
                r = c.rng.random()
                if r < .6:
                    g.fill("o")
                elif r < .75:
                    spoil(c, "o", 1)
                elif r < .85:
                    s.add_variable("o", f"Own{n}", g.numbers(
                        (c.rng.choice([2, 5]),)), "double", "w")
                elif r < .93:
                    # other strings, the same shape
                    x = {m: v for m, v in g.data("o").items() if isinstance(
                        v, np.ndarray) and v.dtype.kind == "U"}
                    if not x:
                        s.add_variable("o", "Label", [["ab"]], "string", "IS")
                        x = {"Label": np.array([["ab"]])}
                    s.dimension("o", "S")
                    k = c.rng.choice(sorted(x))
                    for size in c.some((1, 3, 9, 27), 3):
                        s.set("o", k, np.full(x[k].shape, "ü" * size))
                        s.dimension("o", "S")
                        s.list_dimensions("o")
                else:
                    x = g.data("o")
                    k = c.rng.choice([m for m in x if isinstance(
                        x[m], np.ndarray)] or ["GLOBAL_Title"])
                    s.set("o", k, c.rng.choice(
                        [[[1, 2], [3, 4]], "text", 5, [[[1, 2], [3, 4]]]]))
                for d in c.some("MRENS", 2):
                    s.dimension("o", d)
                s.list_dimensions("o")
                if c.rng.random() < .4:
                    s.write("o", "f")
                    for d in c.some("MRENCIS", 2):
                        s.dimension("o", d)
        yield _label("dimensions", *conv, half), f

        def f(c, conv=conv):
            """Sizes in a file are those of the object."""
            s, g = c.s, c.g
            for n in range(4 if c.full else 2):
                if not g.make("o", conv, "custom"):
                    return
                g.fill("o")
                s.list_dimensions("o")
                if s.write("o", "f")["exc"]:
                    continue
                s.read("p", "f")
                if g.alive("p"):
                    for d in "MRENCIS":
                        s.dimension("o", d)
                        s.dimension("p", d)
                    s.list_dimensions("p")
                    s.stream("f", [], list("MRENCIS"))
                    s.stream_list("f")
            g.make("o", conv)
            g.fill("o")
            gl, dims, v = g.file_parts("o")
            s.protect("o", False)
            for t in c.some(("Foo", "fir", "", "FIR-E", "FIRE", "TF", "tf",
                             "TF-E", "SOS", "sos", "FIR", "a FIR"), 5):
                s.set("o", "GLOBAL_DataType", t)
                s.list_dimensions("o")
                s.dimension("o", "N")
                s.foreign("t.sofa", dict(gl, DataType=t), dims, v)
                s.stream_list("t")
                s.stream("t", ["GLOBAL_DataType"], ["N"])
        yield _label("in files", *conv), f


def c23e(db):
    """Conventions that were compiled from their sources are used."""
    for label, f in c02(db):
        if label.startswith("create") or not db:
            yield label, f


# -- C27 ---------------------------------------------------------------------
def c27(db):
    """What the user is told."""
    for conv in _convs(db):
        def f(c, conv=conv):
            """Custom data with known and unknown dimensions."""
            s, g, rng = c.s, c.g, c.rng
            if not g.make("b", conv):
                return
            for n in range(40 if c.full else 14):
                s.copy("b", "o")
                dims = "".join(rng.choice("MRENCIS" if rng.random() < .75
                                          else "qTaZmrenci1 _sxyz")
                               for _ in range(rng.choice([1, 1, 2, 3, 4])))
                text = "S" in dims.upper()
                x = g.texts([1] * len(dims)) if text else g.numbers(
                    [1] * len(dims))
                name = f"Own{n}" if rng.random() < .8 else "Data_IR"
                s.add_variable("o", name, x, "string" if text else "double",
                               dims.replace("S", "") if text
                               and rng.random() < .3 else dims)
                if name in g.data("o") and rng.random() < .6:
                    s.add_attribute("o", f"{name}_Remark", "x")
                    s.delete("o", f"{name}_Remark")
                    s.delete("o", name)
                    s.add_variable("o", name, 1, "double", rng.choice(
                        ["I", "M", dims, "q"]))
                s.add_variable("o", f"Att{n}_x", "x", "attribute", rng.choice(
                    [None, "M", "q"]))
                s.set("o", "GLOBAL_Title", f"title {n}")
                s.dimension("o", rng.choice("MRENCISqQ"))
        yield _label("custom", *conv), f

        def f(c, conv=conv):
            """Custom entries of files, and outdated versions."""
            s, g, rng = c.s, c.g, c.rng
            for n in foreign_files(c, conv, 8 if c.full else 3):
                for verbose in (True, False):
                    s.read("o", f"f{n}", rng.choice(["auto", False]), verbose)
                s.read_netcdf("n", f"f{n}")
                if g.alive("o"):
                    s.write("o", f"w{n}")
                    s.read("p", f"w{n}", False, rng.random() < .5)
                if g.alive("n"):
                    s.write("n", f"w{n}")
            if not g.make("b", conv, "custom"):
                return
            g.fill("b")
            gl, dims, v = g.file_parts("b")
            for n in (1, 2):
                s.foreign(f"h{n}.sofa", gl, dims, holed(c, v, *c.some(
                    [k for k in v if v[k][1] == "f8"], n)))
                s.read("o", f"h{n}", False, n == 1)
                s.read_netcdf("o", f"h{n}")
            s.write("b", "w")
            for verbose in (True, False):
                s.read("o", "w", "auto", verbose)
            for name, version in c.some(g.std + g.dep, 4):
                s.copy("b", "o")
                c.force("o", "GLOBAL_SOFAConventions", name)
                c.force("o", "GLOBAL_SOFAConventionsVersion", version)
                s.write("o", "w2")
        yield _label("files", *conv), f

        def f(c, conv=conv):
            """Missing data and differences."""
            s, g, rng = c.s, c.g, c.rng
            if not g.make("b", conv, "custom"):
                return
            for _ in range(12 if c.full else 5):
                s.copy("b", "o")
                names = [n for n in c.entries("o") if n not in KEEP]
                c.drop("o", *rng.sample(names, rng.randrange(4)))
                s.equals("b", "o", None, rng.random() < .5)
                if rng.random() < .4:
                    differ(c, "o")
                s.equals("o", "b", rng.choice(EXCLUDE[:4]), rng.random() < .5)
                s.add_missing("o", rng.random() < .7, rng.random() < .7,
                              rng.random() < .6)
                s.add_missing("o", True, True, rng.random() < .6)
                s.equals("o", "b", None, rng.random() < .5)
        yield _label("missing", *conv), f

    for label, f in c19(db):
        if any(label.endswith(k) for k in ("mandatory", "filled", "custom")):
            yield label, f


# -- C28 ---------------------------------------------------------------------
def c28(db):
    """Objects that violate the convention in all ways."""
    for suite in (c08, c09, c10, c11):
        for k, (label, f) in enumerate(suite(db)):
            if k % 2:
                yield label, f


# -- C29 ---------------------------------------------------------------------
@functools.lru_cache
def stream_histories(config):
    """All histories of the state machine SofaStreamsMC."""
    from . import run_shard
    code, text = run_shard.tlc("", "", spec="SofaStreamsMC", config=config,
                               args=("-deadlock",))
    found = run_shard.printed(text, "HIST")
    if code or not found:
        raise RuntimeError(text[-2000:])
    return sorted(found, key=str)


def c29(db):
    """Streams that are open at the same time, left, and entered again."""
    shares = 16
    for k in range(shares):
        def f(c, k=k):
            s, g, rng = c.s, c.g, c.rng
            if not g.make("b", rng.choice([("GeneralTF", "2.0"),
                                           ("GeneralFIR", "1.0")])):
                return
            gl, dims, v = g.file_parts("b")
            some = rng.sample([n for n in v if v[n][1] == "f8"], 3)
            names = ["GLOBAL_Title", "GLOBAL_Nothing"] + [
                n.replace(".", "_") for n in some] + [
                    f"{n.replace('.', '_')}_Remark" for n in some[:2]]

            def put(path, n):
                w = {m: (d, t, g.numbers(x.shape).astype(t) if m in some
                         else x, dict(a, Remark=f"{path} {n}"))
                     for m, (d, t, x, a) in v.items()}
                s.foreign(path, dict(gl, Title=f"{path} {n}"),
                          dict(dims, X=n + 1 + 50 * (path == "q.sofa")), w)

            found = stream_histories(
                "SofaStreamsMC6" if c.full else "SofaStreamsMC")[k::shares]
            most = 700 if c.full else 70
            for calls in rng.sample(found, min(most, len(found))):
                n = 0
                for path in ("p.sofa", "q.sofa"):
                    put(path, n)
                for call in calls:
                    op, i, path = call["op"], call["id"], call["path"]
                    if op == "open":
                        s.stream_open(i, path)
                    elif op == "again":
                        s.stream_open(i)
                    elif op == "close":
                        s.stream_close(i, call["error"])
                    elif op == "remove":
                        s.remove(path)
                    else:
                        n += 1
                        put(path, n)
                    for j in rng.sample(sorted(s.streams), len(s.streams)):
                        s.stream(s.streamed[j], names, ["M", "X", "Z"], j)
                    if s.streams and rng.random() < .15:
                        j = rng.choice(sorted(s.streams))
                        rng.choice([s.stream_list, s.stream_inspect])(
                            s.streamed[j], sid=j)
                s.cleanup()
                s.streams, s.streamed = {}, {}
        yield f"histories {k}", f

    for conv in _convs(db):
        def f(c, conv=conv):
            """Several streams of files of all kinds."""
            s, g, rng = c.s, c.g, c.rng
            files = [f"f{n}.sofa" for n in foreign_files(c, conv, 2)]
            if g.make("o", conv, "custom"):
                g.fill("o")
                s.write("o", "w")
                files += ["w.sofa"] if "w.sofa" in s.files else []
            entries = {}
            for path in files:
                s.read_netcdf("o", path)
                entries[path] = c.entries("o") if g.alive("o") else []
            more = ["GLOBAL_Nothing", "Nothing", "Data_Nothing"]
            for n in range(80 if c.full else 25):
                i = rng.choice("abc")
                path = rng.choice(files + ["missing.sofa"] * (n % 7 == 0))
                if i in s.opened and rng.random() < .3:
                    s.stream_close(i, rng.random() < .4)
                elif i not in s.opened:
                    again = i in s.streams and rng.random() < .4
                    s.stream_open(i, None if again else path)
                j = rng.choice(sorted(s.streams))
                path = s.streamed[j]
                r = rng.random()
                if r < .6:
                    s.stream(path, c.some(entries.get(path, []) + more, 8),
                             rng.sample("MRENCISXQ", 3), j)
                elif r < .75:
                    s.stream_list(path, j)
                elif r < .9:
                    s.stream_inspect(path, sid=j)
                elif path in s.files:
                    s.read_netcdf("p", path)
            for i in sorted(s.opened):
                s.stream_close(i)
            s.streams, s.streamed = {}, {}
        yield _label("several", *conv), f


# -- C30 ---------------------------------------------------------------------
@functools.lru_cache
def write_histories(config):
    """All histories of calls of the state machine SofaWriteMC."""
    from . import run_shard
    code, text = run_shard.tlc("", "", spec="SofaWriteMC", config=config,
                               args=("-deadlock",))
    found = run_shard.printed(text, "HIST")
    if code or not found:
        raise RuntimeError(text[-2000:])
    return sorted({str(x): x for x in found}.values(), key=str)


BAD_NAMES = ["a/b", " a", "a ", "", "CLASS", "NAME", "/", "a/"]


def unstorable(c, i):
    """Add an entry whose name can not be stored in files."""
    s, rng = c.s, c.rng
    name = rng.choice(BAD_NAMES)
    variables = [n for n, x in c.g.data(i).items() if "_" not in n]
    r = rng.random()
    if r < .4 or not variables:
        s.add_attribute(i, "GLOBAL_" + name, "x")
    elif r < .8:
        s.add_attribute(i, f"{rng.choice(variables)}_{name}", "x")
    else:
        s.add_variable(i, rng.choice([" a", "a ", " "]), 1, "double", "I")


def c30(db):
    """Writing that fails or is interrupted at any point."""
    shares = 16
    for k in range(shares):
        def f(c, k=k):
            s, g, rng = c.s, c.g, c.rng
            found = write_histories(
                "SofaWriteMC4" if c.full else "SofaWriteMC")[k::shares]
            most = 500 if c.full else 45
            if not g.make("b", rng.choice([("GeneralTF", "2.0"),
                                           ("GeneralFIR", "1.0")])):
                return
            for calls in rng.sample(found, min(most, len(found))):
                size = 40000
                for n, call in enumerate(calls):
                    how, path = call["how"], call["path"]
                    s.copy("b", "o")
                    if n:
                        g.fill("o")
                    c.force("o", "GLOBAL_Title", f"version {n}")
                    comp = rng.randrange(10)
                    if how == "invalid":
                        c.force("o", "GLOBAL_Title", 1)
                        s.write("o", path, comp)
                    elif how == "level":
                        s.write("o", path, rng.choice([10, -1, 99]))
                    elif how == "name":
                        unstorable(c, "o")
                        s.write("o", path, comp)
                    elif how == "done":
                        s.write("o", path, comp)
                    else:
                        s.interrupt("o", path, comp, how, rng.choice(
                            [0, 1, 96, 512, 2048, 4096, rng.randrange(size),
                             rng.randrange(size)]))
                    for p in s.files:
                        size = os.path.getsize(s.path(p))
                        if rng.random() < .3:
                            s.read("p", p, False)
                s.cleanup()
                g.make("b", rng.choice([("GeneralTF", "2.0"),
                                        ("GeneralFIR", "1.0")]))
        yield f"histories {k}", f

    for conv in _convs(db):
        def f(c, conv=conv):
            """Every object at every point."""
            s, g, rng = c.s, c.g, c.rng
            if not g.make("o", conv, rng.choice(["new", "custom"])) \
                    or not g.make("p", conv, "filled"):
                return
            s.write("o", "f")
            if "f.sofa" not in s.files:
                return
            size = os.path.getsize(s.path("f.sofa"))
            points = [0, 1, 48, 96, 511, 512, 2048, size // 2, size - 1, size,
                      size + 1, 10 * size]
            points += [rng.randrange(size) for _ in range(
                60 if c.full else 4)]
            for at in points:
                for kind in ("full", "killed"):
                    s.interrupt(rng.choice("op"), rng.choice(
                        ["f", "f.sofa", "g"]), rng.randrange(10), kind, at)
                if rng.random() < .3:
                    s.read("q", "f", False)
            for path in ("f", "new"):
                n = s.calls_of_write("p", path)
                if not n:
                    continue
                last = list(range(max(n - 150, 1), n + 5))
                points = rng.sample(last, len(last) if c.full else 14)
                points += [rng.randrange(n) for _ in range(
                    30 if c.full else 3)]
                for at in points:
                    s.interrupt(rng.choice("pppo"), path, rng.randrange(10),
                                rng.choice(["killedat", "stopped"]), at)
            for _ in range(10 if c.full else 4):
                s.copy("p", "q")
                g.custom["q"] = dict(g.custom.get("p", {}))
                if rng.random() < .4:
                    spoil(c, "q", 1)
                unstorable(c, "q")
                s.write("q", rng.choice("fh"), rng.randrange(10))
                s.verify("q", "write", "return")
            for n in ("a.b", "a/b", "Data.X", ".", "/"):
                s.add_variable("p", n, 1, "double", "I")
            s.write("p", "f", 11)
            s.write("p", "f")
            s.check_db()
        yield _label("points", *conv), f


SUITES = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05,
          "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
          "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15,
          "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20,
          "C21": c21, "C23E": c23e, "C24": c24, "C25": c25,
          "C27": c27, "C28": c28, "C29": c29, "C30": c30}


def items(suite, db):
    return SUITES[suite](db)
