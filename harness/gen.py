"""Generators of objects, data, and files for the suites."""
import random

import numpy as np

from db.dbgen import ordered

TEXT = ["", "a", "xyz", "Some text", "4.5", "free Field", "ä", "µΩ", "日本語",
        "a, b", "tab\there", "semi;colon", "UPPER", "a.b:c_d", "'q'", "\"q\"",
        "x" * 40]
WORDS = ["", "a", "bc", "Def", "g h", "ï", "日本", "loudspeaker", "x" * 17,
         "q_r", "1.5", "end ", " begin", " "]


def sofar_name(n):
    return n.replace(":", "_").replace(".", "_")


class Gen:

    def __init__(self, session, db, rng):
        self.s, self.rng = session, rng
        self.db = db
        self.stem, self.std, self.dep = {}, [], []
        for kind, out in (("standardized", self.std),
                          ("deprecated", self.dep)):
            for stem, rows in db[kind].items():
                name, version = stem.split("_")
                self.stem[(name, version)] = {
                    sofar_name(r[0]): r for r in ordered(rows)}
                out.append((name, version))
        self.names = sorted({n for n, _ in self.std + self.dep})
        self.stable = [c for c in self.std if float(c[1]) >= 1]
        self.n = 0

    # -- what the convention of an object says -------------------------------
    def conv(self, i):
        d = self.s.objs[i].__dict__
        return (d.get("GLOBAL_SOFAConventions"),
                d.get("GLOBAL_SOFAConventionsVersion"))

    def rows(self, conv):
        return self.stem.get(tuple(
            c if isinstance(c, str) else None for c in conv), {})

    def data(self, i):
        return {k: v for k, v in vars(self.s.objs[i]).items()
                if not k.startswith("_")}

    def alive(self, i):
        return i in self.s.objs

    # -- values ----------------------------------------------------------------
    def number(self):
        self.n += 1
        r = self.rng.random()
        if r < .5:
            return self.n
        if r < .8:
            return self.n + .25
        if r < .9:
            return -self.n - .1
        return self.rng.choice([1e-30, 1e30, 0.1, 1 / 3, -1e-5]) * self.n

    def numbers(self, shape):
        n = int(np.prod(shape))
        vals = [self.number() for _ in range(n)]
        if self.rng.random() < .3:
            vals = [int(round(v)) if abs(v) < 1e6 else self.n for v in vals]
            return np.array(vals, dtype="int64").reshape(shape)
        dtype = "float32" if self.rng.random() < .05 else "float64"
        return np.array(vals, dtype="float64").astype(dtype).reshape(shape)

    def texts(self, shape):
        n = int(np.prod(shape))
        out = []
        for k in range(n):
            self.n += 1
            out.append(self.rng.choice(WORDS) + (
                str(self.n) if self.rng.random() < .7 else ""))
        return np.array(out, dtype="U").reshape(shape)

    def present(self, x):
        """The same data as the kinds of values that users assign."""
        r = self.rng.random()
        if isinstance(x, np.ndarray) and r < .25 and x.ndim <= 2:
            return x.tolist()
        if isinstance(x, np.ndarray) and x.size == 1 and r < .6:
            return x.reshape(-1)[0].item()
        if isinstance(x, np.ndarray) and r > .8 and x.ndim > 1:
            return np.asfortranarray(x)
        return x

    # -- consistent data -------------------------------------------------------
    def dims_of(self, i):
        """{variable: list of allowed dimensions (strings)}"""
        out = {}
        rows = self.rows(self.conv(i))
        custom = getattr(self, "custom", {}).get(i, {})
        for n in self.data(i):
            if n in rows and rows[n][3] is not None:
                out[n] = rows[n][3].split(", ")
            elif n in custom and custom[n] is not None:
                out[n] = [custom[n]]
        return out

    def sizes(self, i, top=4):
        """Sizes of the dimensions that do not violate a rule."""
        name, _ = self.conv(i)
        rng, data = self.rng, self.data(i)
        dims = {"C": 3, "I": 1, "S": 1}
        for d in "MRENQWPK":
            dims[d] = rng.choice([1, 1, 2, 2, 3, top])
        if rng.random() < .2:            # equal sizes hide mistakes, rarely
            dims.update({d: 2 for d in "MREN"})
        elif rng.random() < .5:
            v = rng.sample([1, 2, 3, 4, 5], 4)
            dims.update(dict(zip("MREN", v)))
        if str(data.get("GLOBAL_DataType")) == "SOS":
            dims["N"] = rng.choice([6, 12])
        for obj in ("Receiver", "Emitter"):
            t = data.get(obj + "Position_Type")
            if isinstance(t, str) and t.lower() == "spherical harmonics":
                dims[obj[0]] = rng.choice([1, 4, 9])
        rules = self.db["rules"].get("GLOBAL:SOFAConventions", {}).get(
            "specific", {}).get(name, {}).get("_dimensions", {})
        for d, r in rules.items():
            dims[d] = rng.choice(r["value"])
        return dims

    def shape(self, dims, sizes):
        sh = [1 if d in "S" else sizes[d.upper()] for d in dims]
        return sh

    def vary(self, sh, dims):
        """The same shape up to trailing singleton dimensions."""
        sh, r = list(sh), self.rng.random()
        if r < .3 and len(dims) > 1:
            while len(sh) > 1 and sh[-1] == 1 and self.rng.random() < .8:
                sh.pop()
        elif r < .45 and 1 < len(sh) < 4:
            sh.append(1)
        return sh

    def fill(self, i, sizes=None, top=4, some=1.):
        """Assign new data of consistent sizes to all variables."""
        sizes = sizes or self.sizes(i, top)
        rows = self.rows(self.conv(i))
        alld = self.dims_of(i)
        ro = [n for n in alld if n in rows and "r" in (rows[n][2] or "")]
        if ro:
            self.s.protect(i, False)
        for n, alts in alld.items():
            dims = self.rng.choice(alts)
            if any(c.islower() for c in alts[0]):
                ok = [a for a in alts if self.defines(a, alts[0], sizes)]
                dims = self.rng.choice(ok)
            text = n in rows and rows[n][4] == "string" \
                or "S" in alts[0]
            if text:
                sh = self.shape(dims, sizes)
                x = self.texts(sh if len(sh) else [1])
            else:
                sh = self.shape(dims, sizes)
                if len(dims) == 1:
                    if not alts[0].islower() and self.rng.random() < .5:
                        sh = [1, sh[0]]
                    x = self.numbers(sh)
                    if x.size == 1 and self.rng.random() < .8:
                        x = x.reshape(-1)[0].item()
                else:
                    x = self.numbers(self.vary(sh, dims))
            if len(dims) > 1:
                x = self.present(x)
                if isinstance(x, list) and np.array(x).ndim < 2:
                    x = np.array(x)
            self.s.set(i, n, x)
        if ro:
            self.s.protect(i, True)
        return sizes

    def defines(self, alt, first, sizes):
        """Does data of shape `alt` still define the sizes of `first`?"""
        sh = self.shape(alt, sizes) + [1] * 4
        return all(sh[k] == sizes[c.upper()] for k, c in enumerate(first)
                   if c.islower())

    # -- objects ---------------------------------------------------------------
    KINDS = ("new", "mandatory", "copy", "read", "readnc", "custom")

    def make(self, i, conv, kind="new"):
        """An object of a convention in different ways."""
        s = self.s
        name, version = conv
        self.custom = getattr(self, "custom", {})
        self.custom[i] = {}
        if kind in ("mandatory", "completed"):
            s.new(i, name, version, mandatory=True)
        else:
            s.new(i, name, version)
        if not self.alive(i):
            return False
        if kind == "completed":
            s.add_missing(i, verbose=False)
        elif kind == "copy":
            s.new(i + "'", name, version)
            s.copy(i + "'", i)
            s.forget(i + "'")
        elif kind == "custom":
            self.add_custom(i)
        elif kind == "filled":
            self.fill(i)
        elif kind in ("read", "readnc"):
            self.put(i, "k" + str(self.n) + ".sofa")
            if kind == "read":
                s.read(i, "k" + str(self.n), verify=False)
            else:
                s.read_netcdf(i, "k" + str(self.n))
        return self.alive(i)

    CUSTOM = [("Temp", "double", "M"), ("Label", "string", "MS"),
              ("Grid", "double", "MRN"), ("Pos", "double", "IC"),
              ("Own", "double", "q"), ("OwnTwo", "double", "wM"),
              ("Names", "string", "RS"), ("Single", "double", "I"),
              ("Cube", "double", "IRNM"), ("Note", "string", "IS"),
              ("data", "double", "IN"), ("Datax", "double", "MI"),
              ("Words", "string", "M"), ("Brief", "string", "i")]

    def add_custom(self, i, k=3):
        s, rng = self.s, self.rng
        sizes = self.measure(i)
        for name, t, dims in rng.sample(self.CUSTOM, k):
            if name in self.data(i):
                continue
            for d in dims:
                sizes.setdefault(d.upper(), rng.choice([1, 2, 3]))
            sh = [1 if d == "S" else sizes[d.upper()] for d in dims]
            x = self.texts(sh) if t == "string" else self.numbers(sh)
            s.add_variable(i, name, x, t, dims)
            self.custom[i][name] = dims if t == "double" or "S" in dims \
                else dims.upper() + "S"
            if rng.random() < .5:
                att = rng.choice(["Units", "Type", "Remark"])
                s.add_attribute(i, f"{name}_{att}", rng.choice(
                    ["metre", "some thing", "hertz, kelvin"]))
        if rng.random() < .5:
            s.add_attribute(i, "GLOBAL_Weather", rng.choice(TEXT))
        if rng.random() < .3 and "SourcePosition" in self.data(i):
            s.add_attribute(i, "SourcePosition_Remark", rng.choice(TEXT))
        if rng.random() < .3 and "Data_IR" in self.data(i) \
                and "Data_IR_Remark" not in self.data(i):
            s.add_attribute(i, "Data_IR_Remark", rng.choice(TEXT))

    def measure(self, i):
        """Sizes of the dimensions of the data (without using sofar)."""
        out = {"C": 3, "I": 1, "S": 1}
        for n, alts in self.dims_of(i).items():
            v = self.data(i)[n]
            sh = list(np.shape(v))
            if isinstance(v, str) or sh == []:
                sh = [1, 1]
            if len(alts[0]) == 1 and not isinstance(v, str):
                sh = [np.size(v)]
            sh += [1] * 4
            for k, c in enumerate(alts[0]):
                if c.islower() and c != "s":
                    out[c.upper()] = int(sh[k])
        return out

    # -- files that are written without sofar ---------------------------------
    def file_parts(self, i):
        """g, dims, variables for ncfile.create from a (valid) object."""
        rows = self.rows(self.conv(i))
        data, sizes = self.data(i), self.measure(i)
        dims_of = self.dims_of(i)
        g, variables = {}, {}
        longest = 1
        for n, v in data.items():
            if n.startswith("GLOBAL_"):
                g[n[7:]] = v
            elif n in dims_of:
                text = n in rows and rows[n][4] == "string"
                if text:
                    longest = max([longest] + [
                        len(str(t).encode()) for t in np.ravel(v)])
        sizes["S"] = longest
        for n, alts in dims_of.items():
            v = data[n]
            text = n in rows and rows[n][4] == "string" \
                or "S" in alts[0]
            file_name = n.replace("Data_", "Data.") \
                if n.startswith("Data_") else n
            for alt in alts:
                for k, c in enumerate(alt):
                    if c not in sizes and not c.islower() and c != "S":
                        sizes[c] = int((np.shape(v) + (1,) * 4)[k])
                want = [sizes[c.upper()] for c in alt if c.upper() != "S"]
                if int(np.prod(want)) == np.size(v) and (
                        list(np.squeeze(v).shape)
                        == [w for w in want if w != 1]):
                    break
            arr = np.array(v)
            if text:
                arr = chars(arr.reshape(want), longest)
            else:
                arr = arr.astype("f8").reshape(want)
            attrs = {k[len(n) + 1:]: a for k, a in data.items()
                     if k.startswith(n + "_") and isinstance(a, str)
                     and "_" not in k[len(n) + 1:]}
            variables[file_name] = (
                [c.upper() for c in alt], "S1" if text else "f8", arr, attrs)
        return g, sizes, variables

    def put(self, i, path):
        self.s.foreign(path, *self.file_parts(i))


def chars(arr, n):
    """Array of characters for an array of texts."""
    out = np.zeros(arr.shape + (n,), "S1")
    for idx in np.ndindex(arr.shape):
        b = str(arr[idx]).encode()[:n].decode("utf8", "ignore").encode()
        out[idx][:len(b)] = np.frombuffer(b, "S1")
    return out


def seeded(*parts):
    return random.Random("/".join(str(p) for p in parts))
