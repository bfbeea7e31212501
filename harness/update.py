"""
Updating and compiling conventions (properties C22 and C23).

Histories are generated from the specification (SofaUpdateGen.tla) and by
hand, and replayed with the real library.  The official conventions are served
by a stand-in for the lowest level of ``requests``, i.e., nothing below the
public function ``update_conventions`` is replaced.
"""
import builtins
import contextlib
import hashlib
import io
import json
import os
import shutil
import sys
import tempfile

from unittest import mock

from .values import esc, tok

URLS = ("https://www.sofaconventions.org/conventions",
        "https://www.sofaconventions.org/conventions/deprecated")
HEAD = ["Name", "Default", "Flags", "Dimensions", "Type", "Comment"]


# -- texts -------------------------------------------------------------------
def to_text(data):
    """Bytes of a file -> lines [c: cells, r: ends with a carriage return]."""
    lines = data.decode("cp1252", "replace").split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    out = []
    for line in lines:
        r = line.endswith("\r")
        out.append({"c": [esc(c) for c in (line[:-1] if r else line
                                           ).split("\t")], "r": r})
    return out


def to_bytes(text):
    return "".join("\t".join(ln["c"]) + ("\r\n" if ln["r"] else "\n")
                   for ln in text).encode("cp1252")


def value(x):
    if x is None:
        return {"k": "null", "sh": [], "v": []}
    if isinstance(x, str):
        return {"k": "s", "sh": [], "v": [esc(x)]}
    if isinstance(x, list):
        flat = x
        while flat and isinstance(flat[0], list):
            if not all(isinstance(f, list) and len(f) == len(flat[0])
                       for f in flat):
                return {"k": "o", "sh": [], "v": [esc(repr(x))]}
            flat = [v for f in flat for v in f]
        # the shape of nested lists of equal length
        shape, y = [], x
        while isinstance(y, list):
            shape.append(len(y))
            y = y[0] if y else None
        return {"k": "a", "sh": shape, "v": [tok(v) for v in flat]}
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return {"k": "n", "sh": [], "v": [tok(x)]}
    return {"k": "o", "sh": [], "v": [esc(repr(x))]}


def compiled(path):
    with open(path, "rb") as f:
        raw = f.read()
    out = {"raw": hashlib.sha1(raw).hexdigest(), "order": [], "e": {}}
    try:
        d = json.loads(raw)
        out["order"] = [esc(n) for n in d]
        out["e"] = {esc(n): {k: value(e.get(k)) for k in (
            "default", "flags", "dimensions", "type", "comment")}
            for n, e in d.items()}
    except (ValueError, AttributeError):
        pass
    return out


def snapshot(folder, top):
    """Everything in the folder of the conventions (and around it)."""
    out = {"std": {}, "dep": {}, "json": {"std": {}, "dep": {}}, "other": {}}
    raw = {}
    for base, dirs, names in os.walk(top):
        for n in names:
            path = os.path.join(base, n)
            where = {folder: "std", os.path.join(folder, "deprecated"):
                     "dep"}.get(base)
            if where and n.endswith(".csv"):
                with open(path, "rb") as f:
                    raw[where, n] = f.read()
                out[where][n] = to_text(raw[where, n])
            elif where and n.endswith(".json"):
                out["json"][where][n] = compiled(path)
            else:
                with open(path, "rb") as f:
                    out["other"][esc(os.path.relpath(path, top))] = \
                        hashlib.sha1(f.read()).hexdigest()
    return out, raw


# -- the official conventions ------------------------------------------------
class Server:

    def __init__(self, rng, remote, fails=None):
        self.remote, self.fails, self.n = remote, fails, 0
        self.failed, self.fetched = False, []
        pages = []
        for k in ("std", "dep"):
            links = [f'<a href="{rng.choice(["", URLS[k == "dep"] + "/"])}'
                     f'{n}">{n}</a>' for n in remote[k]]
            links += ['<a href="../">up</a>', '<a href="x.mat">x</a>',
                      '<a href="csv/">c</a>', '<a href="?C=N;O=D">Name</a>']
            rng.shuffle(links)
            pages.append("<html><body><p>" + "</p><p>".join(links)
                         + "</p></body></html>")
        self.pages = pages

    def send(self, adapter, request, **kwargs):
        import requests
        self.n += 1
        r = requests.Response()
        r.status_code, r.url, r.request = 200, request.url, request
        r.encoding = "utf-8"
        r.raw = io.BytesIO()
        if self.fails and self.n >= self.fails[0]:
            self.failed = True
            if self.fails[1] == "connection":
                raise requests.exceptions.ConnectionError("no connection")
            if self.fails[1] == "timeout":
                raise requests.exceptions.ReadTimeout("too slow")
            r.status_code = int(self.fails[1])
            r._content = b"<html>an error</html>"
            return r
        return self.answer(request, r)

    def answer(self, request, r):
        path = request.url.split("?")[0]
        name = path.rstrip("/").rsplit("/", 1)[1]
        if name.endswith(".csv"):
            if esc(name) in self.remote["text"]:
                self.fetched.append(esc(name))
                r._content = to_bytes(self.raw[name])
            else:
                r.status_code, r._content = 404, b"nothing"
        else:
            r._content = self.pages["deprecated" in path].encode()
        return r

    @property
    def raw(self):
        return self.remote["raw"]


class Runner:

    def __init__(self, sf, root, out):
        self.sf, self.root, self.file = sf, root, out
        self.n, self.context = 0, ""
        self.counts = {"update": 0}

    def write(self, folder, texts):
        os.makedirs(folder, exist_ok=True)
        for n, t in texts.items():
            with open(os.path.join(folder, n), "wb") as f:
                f.write(to_bytes(t))

    def update(self, rng, folder, remote, assume=True, answer="", fails=None,
               default=False):
        """
        remote: {std: names, dep: names, text: {name: lines}}
        default: the conventions of the package are updated
        """
        top = os.path.dirname(folder) if not default else folder
        remote = {"std": list(remote["std"]), "dep": list(remote["dep"]),
                  "raw": remote["text"],
                  "text": {n: to_text(to_bytes(t))
                           for n, t in remote["text"].items()}}
        server = Server(rng, remote, fails)
        asked = []

        def ask(*args):
            asked.append(1)
            return answer

        before, raw = snapshot(folder, top)
        temp = os.path.join(self.root, "temp")
        os.makedirs(temp, exist_ok=True)
        around = sorted(os.listdir(temp))
        exc, note = [], ""
        out = io.StringIO()
        with mock.patch("requests.adapters.HTTPAdapter.send",
                        lambda *a, **k: server.send(*a, **k)), \
                mock.patch.object(builtins, "input", ask), \
                mock.patch.object(tempfile, "tempdir", temp), \
                contextlib.redirect_stdout(out):
            try:
                args = {"assume_yes": assume}
                if not default:
                    args["conventions_path"] = folder
                self.sf.update_conventions(**args)
            except Exception as e:  # noqa: BLE001
                exc = [c.__name__ for c in type(e).__mro__
                       if c not in (object, BaseException)]
                note = esc(str(e)[:400])
        after, new = snapshot(folder, top)
        event = {"op": "update", "a": {
            "assume": assume, "answer": answer, "fails": server.failed},
            "remote": {k: remote[k] for k in ("std", "dep", "text")},
            "before": before, "after": after, "ctx": self.context,
            "note": note,
            "out": {"exc": exc, "asked": bool(asked),
                    "fetched": sorted(set(server.fetched)),
                    "clean": sorted(os.listdir(temp)) == around,
                    "same": [[k, esc(n)] for (k, n) in raw
                             if new.get((k, n)) == raw[k, n]]}}
        self.file.write(json.dumps(event) + "\n")
        self.file.flush()
        self.n += 1
        self.counts["update"] += 1
        return exc


    def congruency(self, rng, org, box, save="none", branch="master",
                   fails=None):
        """Compare two platforms (name: lines)."""
        folder = os.path.join(self.root, "diverging")
        shutil.rmtree(folder, ignore_errors=True)
        if save == "folder":
            os.makedirs(folder)
            if rng.random() < .3:
                os.makedirs(os.path.join(folder, "sofatoolbox"))
        server = Platforms(rng, org, box, branch, fails)
        exc, note, out = [], "", io.StringIO()
        with mock.patch("requests.adapters.HTTPAdapter.send",
                        lambda *a, **k: server.send(*a, **k)), \
                contextlib.redirect_stdout(out):
            try:
                args = {} if save == "none" else {"save_dir": folder}
                if branch != "master":
                    args["branch"] = branch
                sys.modules["sofar.update_conventions"]._check_congruency(
                    **args)
            except Exception as e:  # noqa: BLE001
                exc = [c.__name__ for c in type(e).__mro__
                       if c not in (object, BaseException)]
                note = esc(str(e)[:400])
        text = out.getvalue()
        lines = {"box": [], "org": [], "differ": []}
        for ln in text.split("\n"):
            for k, end in (("box", " is missing in SOFAtoolbox"),
                           ("org", " is missing on sofaconventions.org"),
                           ("differ", " differs across platforms")):
                if ln.startswith("- ") and ln.endswith(end):
                    lines[k].append(esc(ln[2:-len(end)]))
        saved = {"org": {}, "box": {}, "other": []}
        for base, dirs, names in os.walk(folder):
            for n in names:
                path = os.path.join(base, n)
                k = {"sofaconventions": "org", "sofatoolbox": "box"}.get(
                    os.path.relpath(base, folder))
                if k:
                    with open(path, "rb") as f:
                        saved[k][esc(n)] = to_text(f.read())
                else:
                    saved["other"].append(esc(os.path.relpath(path, folder)))
        shutil.rmtree(folder, ignore_errors=True)
        self.file.write(json.dumps({
            "op": "congruency", "ctx": self.context, "note": note,
            "a": {"fails": server.failed, "save": save},
            "org": {esc(n): to_text(to_bytes(t)) for n, t in org.items()},
            "box": {esc(n): to_text(to_bytes(t)) for n, t in box.items()},
            "out": {"exc": exc, "said": bool(text.strip()), "lines": lines,
                    "saved": saved}}) + "\n")
        self.file.flush()
        self.n += 1
        self.counts["congruency"] = self.counts.get("congruency", 0) + 1


class Platforms(Server):
    """Two platforms with conventions."""

    def __init__(self, rng, org, box, branch, fails=None):
        self.org, self.box, self.fails, self.n = org, box, fails, 0
        self.failed = False
        names = [list(org), list(box)]
        for n in names:
            rng.shuffle(n)
        self.text = {URLS[0] + "/" + n: t for n, t in org.items()}
        self.text.update({
            "https://raw.githubusercontent.com/sofacoustics/SOFAtoolbox/"
            f"{branch}/SOFAtoolbox/conventions/{n}": t
            for n, t in box.items()})
        links = [f'<a href="{rng.choice(["", URLS[0] + "/"])}{n}">{n}</a>'
                 for n in names[0]]
        links += ['<a href="../">up</a>', '<a href="x.mat">x</a>']
        rng.shuffle(links)
        items = [f'{{"name":"{n}","path":"SOFAtoolbox/conventions/{n}",'
                 '"contentType":"file"}' for n in names[1]]
        items += ['{"name":"deprecated","path":"SOFAtoolbox/conventions/'
                  'deprecated","contentType":"directory"}',
                  '{"name":"a.mat","path":"SOFAtoolbox/conventions/a.mat"}']
        self.text[URLS[0]] = "<p>" + "</p><p>".join(links) + "</p>"
        self.text["https://github.com/sofacoustics/SOFAtoolbox/tree/"
                  f"{branch}/SOFAtoolbox/conventions"] = \
            '{"payload":{"items":[' + ",".join(items) + "]}}"

    def answer(self, request, r):
        text = self.text.get(request.url.split("?")[0].rstrip("/"))
        if text is None:
            r.status_code, r._content = 404, b"nothing"
        else:
            r._content = text.encode() if isinstance(text, str) \
                else to_bytes(text)
        return r


@contextlib.contextmanager
def scratch(run):
    top = tempfile.mkdtemp(prefix="conv-", dir=run.root)
    try:
        yield os.path.join(top, "conventions")
    finally:
        shutil.rmtree(top)


# -- C22 ---------------------------------------------------------------------
def behaviours(seed, n):
    """Histories generated from the specification."""
    from . import run_shard
    code, output = run_shard.tlc(
        "", "", spec="SofaUpdateGen",
        args=("-simulate", f"num={n}", "-seed", str(seed), "-depth", "6"))
    out = run_shard.printed(output, "BEH")
    if len(out) != n:
        raise RuntimeError(output[-2000:])
    return out, output


def plausible(rng, texts, folder):
    """Compiled files (or not) for the sources."""
    for n in texts:
        if rng.random() < .8:
            with open(os.path.join(folder, n[:-3] + "json"), "w") as f:
                f.write(rng.choice(["{}", '{"GLOBAL:Title": {}}']))


def failures(rng, remote):
    count = 2 + len({n for n in [*remote["std"], *remote["dep"]]
                     if not n.startswith(("General_", "GeneralString_"))})
    return (rng.randrange(1, count + 1), rng.choice(
        ["connection", "timeout", "404", "500", "503"]))


def replay(run, rng, history):
    with scratch(run) as folder:
        # (functions with an empty domain are serialised as sequences)
        local = {k: v or {} for k, v in history[0]["local"].items()}
        new = not local["std"] and not local["dep"]
        if not new or rng.random() < .5:
            run.write(folder, local["std"])
            plausible(rng, local["std"], folder)
            if local["dep"] or rng.random() < .5:
                dep = os.path.join(folder, "deprecated")
                run.write(dep, local["dep"])
                plausible(rng, local["dep"], dep)
            if rng.random() < .3:
                for n in ("readme.txt", "A_1.0.csv.bak", "B.mat"):
                    with open(os.path.join(folder, n), "w") as f:
                        f.write("mine")
        for step in history[1:]:
            u, remote = step["u"], step["remote"]
            remote["text"] = remote["text"] or {}
            run.update(rng, folder, remote, u["assume"], u["answer"],
                       failures(rng, remote) if step["fails"] else None)


def line(*cells, r=False):
    return {"c": list(cells), "r": r}


def simple(v="a", r=False):
    return [line(*HEAD, r=r),
            line("GLOBAL:Title", v, "m", "", "attribute", "c", r=r)]


def directed(run, rng):
    """Cases that the generated histories do not contain."""
    T, U = simple("a"), simple("b")
    both = {"std": ["A_1.0.csv"], "dep": ["A_1.0.csv"],
            "text": {"A_1.0.csv": U}}
    std = {"std": ["A_1.0.csv"], "dep": [], "text": {"A_1.0.csv": U}}
    dep = {"std": [], "dep": ["A_1.0.csv"], "text": {"A_1.0.csv": U}}
    none = {"std": [], "dep": [], "text": {}}
    general = {"std": ["General_1.0.csv", "GeneralTF_1.0.csv",
                       "GeneralString_0.2.csv", "Generals_1.0.csv"],
               "dep": ["General_0.1.csv", "GeneralString-E_0.2.csv"],
               "text": {n: U for n in (
                   "General_1.0.csv", "GeneralTF_1.0.csv",
                   "GeneralString_0.2.csv", "Generals_1.0.csv",
                   "General_0.1.csv", "GeneralString-E_0.2.csv")}}
    versions = {"std": ["A_1.0.csv", "A_2.0.csv"], "dep": ["A_0.5.csv"],
                "text": {n: simple(n) for n in (
                    "A_1.0.csv", "A_2.0.csv", "A_0.5.csv")}}
    for remote in (both, std, dep, none, general, versions):
        for where in ((), ("std",), ("dep",), ("std", "dep")):
            for assume, answer in ((True, ""), (False, "y"), (False, "yes"),
                                   (False, "Y"), (False, " y")):
                with scratch(run) as folder:
                    if where:
                        run.write(folder, {"A_1.0.csv": T}
                                  if "std" in where else {})
                    if "dep" in where:
                        run.write(os.path.join(folder, "deprecated"),
                                  {"A_1.0.csv": T})
                    run.update(rng, folder, remote, assume, answer)
                    run.update(rng, folder, remote, assume, answer)
                    run.update(rng, folder, rng.choice(
                        [both, std, dep, none]), True)


def every_failure(run, rng):
    """Each download fails in each way, then the update works."""
    local = {"A_1.0.csv": simple("a"), "C_1.0.csv": simple("a"),
             "B_1.0.csv": simple("a")}
    remote = {"std": ["A_1.0.csv", "New_1.0.csv", "General_1.0.csv"],
              "dep": ["B_1.0.csv", "D_0.1.csv"],
              "text": {n: simple("b") for n in (
                  "A_1.0.csv", "New_1.0.csv", "General_1.0.csv",
                  "B_1.0.csv", "D_0.1.csv")}}
    for k in range(1, 7):
        for how in ("connection", "timeout", "404", "500"):
            with scratch(run) as folder:
                run.write(folder, local)
                plausible(rng, local, folder)
                run.write(os.path.join(folder, "deprecated"),
                          {"D_0.1.csv": simple("a")})
                run.update(rng, folder, remote, k % 2 == 0, "y", (k, how))
                run.update(rng, folder, remote, k % 2 == 1, "y")
                run.update(rng, folder, remote, False, "n")


def package(run, rng):
    """The conventions of the package."""
    from db import dbgen
    folder = os.path.join(run.root, "sofar", "sofa_conventions",
                          "conventions")
    db = dbgen.from_sources(dbgen.realistic())
    remote = everything(db)
    text = remote["text"]
    names = remote["std"] + remote["dep"]
    few = {"std": remote["std"][:6], "dep": remote["dep"][:4],
           "text": {n: text[n] for n in names
                    if n in remote["std"][:6] + remote["dep"][:4]}}
    keep = tempfile.mkdtemp(dir=run.root)
    shutil.copytree(folder, os.path.join(keep, "c"))
    try:
        shutil.rmtree(folder)
        os.makedirs(os.path.join(folder, "deprecated"))
        run.update(rng, folder, few, False, "n", default=True)
        run.update(rng, folder, few, True, default=True)
        run.update(rng, folder, few, False, "n", default=True)
        moved = {"std": few["std"][2:], "dep": few["dep"] + few["std"][:2],
                 "text": few["text"]}
        run.update(rng, folder, moved, False, "y", default=True)
    finally:
        shutil.rmtree(folder)
        shutil.copytree(os.path.join(keep, "c"), folder)
        shutil.rmtree(keep)


def to_lines(text):
    return [line(*ln.split("\t")) for ln in text.split("\n") if ln]


def c22(tier, seed, shards, shard):
    yield "failures", every_failure
    yield "package", package
    for k in range(3):
        yield f"directed {k}", directed
    n = (1500 if tier == "thorough" else 240) // shards
    for k in range(shards):
        def f(run, rng, k=k):
            found, output = behaviours(seed * 1000 + k, n)
            for h in found:
                replay(run, rng, h)
        yield f"behaviours {k}", f


# -- C23 ---------------------------------------------------------------------
NAMES = ["GLOBAL:Title", "GLOBAL:Version", "GLOBAL:SOFAConventions",
         "GLOBAL:SOFAConventionsVersion", "GLOBAL:DataType",
         "ListenerPosition", "ListenerPosition:Type", "ListenerPosition:Units",
         "ReceiverPosition", "SourcePosition", "EmitterPosition", "N",
         "N:LongName", "Data.IR", "Data.Real", "Data.SamplingRate",
         "Data.SamplingRate:Units", "Data.SOS", "Data.Delay", "RoomVolume",
         "EmitterDescriptions", "GLOBAL:AuthorContact", "DataOwn",
         "MyGLOBAL", "SourceDataPosition", "GLOBAL:APIVersion"]
PERMUTE = ["permute([0 0 0 1 0 0; 0 0 0 1 0 0], [3 1 2]);",
           "permute([0 0 0 1 0 0], [3 1 2]);"]
WORDS = ["metre", "degree, degree, metre", "free field", "No license",
         "é ü", "\u20ac", "cartesian", "1.0.2", "v2", "-", "a,b", "x;y",
         "(1 2)", "1 2", "0x1", "{''", "2021-01-01 10:00:00", "'q'", '"q"']


def number(rng):
    k = rng.random()
    if k < .35:
        return str(rng.choice([0, 1, 2, 48000, -1, 3, 44100, 10]))
    if k < .8:
        return rng.choice(["0.5", "1.0", "-0.09", ".5", "2.", "0.0", "1.25",
                           "-1.5", "0.10", "00.5", "343.0"])
    return rng.choice(["+1", "007", "-0", "-0.0", "+.25", "100.00"])


def separator(rng, style):
    return {"space": " ", "comma": ",", "both": ", ",
            "any": rng.choice([" ", ", ", ",", "  ", " , "])}[style]


def vector(rng, n):
    style = rng.choice(["space", "space", "comma", "both", "any"])
    out = number(rng)
    for _ in range(n - 1):
        out += separator(rng, style) + number(rng)
    return out


def cell(rng, name):
    k = rng.random()
    if k < .12:
        return rng.choice(["", "", " ", "  "])
    if k < .3:
        return number(rng)
    if k < .5:
        pad = rng.choice(["", "", " "])
        return "[" + pad + vector(rng, rng.choice([1, 2, 3, 6])) + pad + "]"
    if k < .72:
        n = rng.choice([1, 2, 3])
        sep = rng.choice([";", "; ", " ; "])
        return "[" + sep.join(vector(rng, n) for _ in range(
            rng.choice([2, 2, 3, 4]))) + "]"
    if k < .78:
        return rng.choice(PERMUTE)
    if k < .83:
        return "{''}"
    return rng.choice(WORDS)


def table(rng, big=False):
    r = rng.random() < .3
    tail = rng.random() < .3
    lines = [line(*HEAD, r=r)]
    if tail:
        lines[0]["c"] += [""] * rng.choice([1, 2])
    names = rng.sample(NAMES, rng.randrange(2, len(NAMES)
                                            if big else 9))
    for n in names:
        d = cell(rng, n)
        if "Version" in n:
            d = rng.choice(["1.0", "2", "0.1", "1.25", "2.10", "10", "1.0.2",
                            "", "0.01"])
        c = [n, d, rng.choice(["", "m", "rm", "r", "mr"]),
             rng.choice(["", "IC, MC", "mRn", "IR, MR", "M", "I", "rCI, rCM",
                         "MS", "I, M"]),
             rng.choice(["attribute", "double", "string"]),
             rng.choice(["", "comment", "a, b; c", "(see [1])", "4", "1.5",
                         "é", " spaced ", "more than one word"])]
        if rng.random() < .1:
            k = rng.randrange(len(c))
            c[k] = " " + c[k] + " "
        if c[5] == "" and rng.random() < .5:
            c.pop()
        if tail:
            c += [""] * rng.choice([0, 1, 3])
        lines.append(line(*c, r=r))
    return lines


def tables(run, rng, n=12):
    names = [f"T{k}_1.0.csv" for k in range(n)]
    text = {m: table(rng, rng.random() < .3) for m in names}
    remote = {"std": names[:n // 2], "dep": names[n // 2:], "text": text}
    with scratch(run) as folder:
        run.update(rng, folder, remote)
        for m in names:
            if rng.random() < .4:
                text[m] = table(rng)
        run.update(rng, folder, remote)


def single_cells(run, rng):
    """Each kind of cell as a default, alone in a table."""
    cells = ([number(rng) for _ in range(25)] + WORDS + PERMUTE + ["", " "]
             + ["{''}", "[0]", "[1 2]", "[1,2]", "[1, 2]", "[1;2]", "[1 ;2]",
                "[1 2;3 4]", "[1, 2; 3, 4]", "[0 0.09 0; 0 -0.09 0]",
                "[ 0 0 0 ]", "[1  2]", "[1 , 2]", "[0.5]", "[-1 -2]",
                "[1 2 3;4 5 6;7 8 9]", "[0 0 0; 0 0 0]"])
    for names in (NAMES[:4], NAMES[4:9], NAMES[12:16]):
        with scratch(run) as folder:
            text = {}
            for k, d in enumerate(cells):
                text[f"T{k}_1.0.csv"] = [line(*HEAD)] + [
                    line(n, d, "m", "IC", "double", "c") for n in names
                    if "Version" not in n or (d[:1] not in ("[", "{", "-", "+")
                                              and d not in PERMUTE)]
            run.update(rng, folder, {"std": list(text), "dep": [],
                                     "text": text})


def everything(db, form=False):
    """The whole data base as the official conventions."""
    from db import dbgen
    text = {}
    for kind in ("standardized", "deprecated"):
        for stem, rows in db[kind].items():
            text[stem + ".csv"] = [line(*ln["c"], r=form) for ln in
                                   to_lines(dbgen.to_csv(rows))]
    return {"std": [n + ".csv" for n in db["standardized"]],
            "dep": [n + ".csv" for n in db["deprecated"]], "text": text}


def real(run, rng):
    """The tables of the data base of the checks."""
    from db import dbgen
    db = dbgen.from_sources(dbgen.realistic())
    for form in (False, True):
        with scratch(run) as folder:
            run.update(rng, folder, everything(db, form))


def c23(tier, seed, shards, shard):
    yield "data base", real
    yield "cells", single_cells
    for k in range(200 if tier == "thorough" else 30):
        yield f"tables {k}", tables


def install(sf, root, db):
    """The conventions of the package come from their sources."""
    import random
    folder = os.path.join(root, "sofar", "sofa_conventions", "conventions")
    shutil.rmtree(folder)
    os.makedirs(os.path.join(folder, "deprecated"))
    with open(os.devnull, "w") as f:
        run = Runner(sf, root, f)
        exc = run.update(random.Random(1), folder, everything(db),
                         default=True)
    if exc:
        raise RuntimeError(f"the update of the conventions failed: {exc}")


# -- C26 ---------------------------------------------------------------------
def platforms():
    """All combinations, printed by the specification."""
    from . import run_shard
    code, output = run_shard.tlc("", "", spec="SofaCongruencyMC",
                                 args=("-deadlock",))
    out = run_shard.printed(output, "BEH")
    if code or not out:
        raise RuntimeError(output[-2000:])
    for b in out:
        for k in ("org", "box"):
            b[k] = b[k] or {}
    return out


def mixed(run, rng):
    """Many conventions, in random order on both pages."""
    names = ["General_1.0.csv", "General_2.0.csv", "GeneralString_0.2.csv",
             "GeneralFIR_1.0.csv", "GeneralTF_2.0.csv", "Generals_1.0.csv",
             *[f"X{k}_{v}.csv" for k in range(9) for v in ("1.0", "0.2")]]
    org, box = {}, {}
    for n in names:
        k = rng.choice(["org", "box", "same", "same", "other", "none"])
        text = table(rng)
        if k in ("org", "same", "other"):
            org[n] = text
        if k in ("box", "same"):
            box[n] = [dict(ln, r=rng.random() < .5 or ln["r"],
                           c=ln["c"] + [""] * rng.choice([0, 0, 1, 2, 3]))
                      for ln in text]
        if k == "other":
            box[n] = table(rng) if rng.random() < .5 else text[:-1]
    run.congruency(rng, org, box, rng.choice(["none", "folder"]),
                   rng.choice(["master", "master", "development"]))
    k = rng.randrange(1, 3 + 2 * len(set(org) & set(box)))
    run.congruency(rng, org, box, rng.choice(["none", "folder"]), "master",
                   (k, rng.choice(["connection", "timeout", "404", "500"])))


def odd_platforms(run, rng):
    one = {"A_1.0.csv": simple("a")}
    for org, box in (({}, one), (one, {}), (one, one), ({}, {})):
        for save in ("none", "folder", "missing"):
            run.congruency(rng, org, box, save)


def c26(tier, seed, shards, shard):
    yield "odd platforms", odd_platforms
    for k in range(400 if tier == "thorough" else 40):
        yield f"mixed {k}", mixed
    for k in range(shards):
        def f(run, rng, k=k):
            found = platforms()
            if tier == "quick":
                found = found[int(seed) % 3::3]
            for b in found[k::shards]:
                run.congruency(rng, b["org"], b["box"],
                               rng.choice(["none", "folder"]))
        yield f"platforms {k}", f


SUITES = {"C22": c22, "C23": c23, "C26": c26}


def record(sf, root, db, suite, tier, seed, shard, shards, out, result):
    from .gen import seeded
    import sofar  # noqa: F401
    with open(out + ".ndjson", "w") as f:
        run = Runner(sf, root, f)
        for k, (label, item) in enumerate(SUITES[suite](
                tier, int(seed), shards, shard)):
            if k % shards != shard:
                continue
            run.context = label
            result["items"] += 1
            result["labels"].append(label)
            try:
                item(run, seeded(suite, tier, seed, label))
            except Exception:  # noqa: BLE001
                import traceback
                result["errors"].append(
                    {"label": label, "error": traceback.format_exc()[-1500:],
                     "event": run.n})
        result["events"] = run.counts
