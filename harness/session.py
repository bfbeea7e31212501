"""Run operations on the real library and record what can be observed."""
import contextlib
import hashlib
import io
import inspect
import json
import os
import pathlib
import re
import resource
import shutil
import signal
import sys
import tempfile
import warnings
from copy import deepcopy

import numpy as np

from . import issues as iss
from . import ncfile
from .values import esc, project, project_arg, tok


class Unsupported(Exception):
    """The harness can not observe something."""


def entries(obj):
    return {k: v for k, v in vars(obj).items() if not k.startswith("_")}


def listing(folder):
    out = {}
    for root, _, files in os.walk(folder):
        for name in files:
            path = os.path.join(root, name)
            with open(path, "rb") as f:
                out[os.path.relpath(path, folder)] = hashlib.md5(
                    f.read()).hexdigest()
    return out


class Session:

    def __init__(self, sofar, root, out):
        self.sf = sofar
        self.root = root
        self.db = os.path.join(root, "sofar", "sofa_conventions")
        self.work = tempfile.mkdtemp(prefix="sofa", dir=root)
        self.out = out                      # text stream for the events
        self.n = 0
        self.counts = {}
        self.objs, self.seen, self.prot = {}, {}, {}
        self.files = {}
        self.streams, self.streamed, self.opened = {}, {}, set()
        self.dbstate = listing(self.db)
        self.context = ""
        self.messages = self._messages()
        self.noise = False
        self.deleted, self.calls = 0, 0

    def _messages(self):
        """All messages of the rules for upgrading."""
        out = []
        for root, _, files in os.walk(self.db):
            if "upgrade.json" in files:
                with open(os.path.join(root, "upgrade.json")) as f:
                    for rules in json.load(f).values():
                        out += [r["message"] for r in rules.values()
                                if isinstance(r, dict) and r["message"]]
        return sorted(set(out))

    # -- recording ---------------------------------------------------------
    def path(self, name):
        return os.path.join(self.work, name)

    def _changes(self):
        ch = {}
        for i, obj in self.objs.items():
            new = {esc(k): project(v) for k, v in entries(obj).items()}
            old = self.seen.get(i)
            prot = obj.protected
            prot = bool(prot) if isinstance(prot, (bool, np.bool_)) else "?"
            if old is None or new != old or prot != self.prot[i]:
                old = old or {}
                ch[i] = {"set": {k: v for k, v in new.items()
                                 if old.get(k) != v},
                         "del": [k for k in old if k not in new],
                         "prot": prot}
            self.seen[i], self.prot[i] = new, prot
        return ch

    def emit(self, op, i, a, exc, out):
        self.n += 1
        self.counts[op] = self.counts.get(op, 0) + 1
        event = {"op": op, "id": i, "a": a, "exc": exc, "out": out,
                 "noise": self.noise, "ch": self._changes(), "ctx": self.context}
        self.out.write(json.dumps(event) + "\n")
        self.noise = False
        return event

    def call(self, f):
        """Result, names of exception classes, message, stdout, warnings."""
        res, exc, msg = None, [], ""
        stdout = io.StringIO()
        with warnings.catch_warnings(record=True) as caught, \
                contextlib.redirect_stdout(stdout):
            warnings.simplefilter("always")
            try:
                res = f()
            except Exception as e:  # noqa: BLE001
                exc = [c.__name__ for c in type(e).__mro__
                       if c not in (object, BaseException, Exception)] \
                    or ["Exception"]
                msg = str(e)
        texts = [str(w.message) for w in caught]
        self.noise = bool(stdout.getvalue() or [
            w for w in caught if issubclass(w.category, UserWarning)])
        return res, exc, msg, stdout.getvalue(), texts

    def forget(self, *ids):
        """Objects that are not used any more."""
        for i in ids or list(self.objs):
            self.objs.pop(i, None)
            self.seen.pop(i, None)
            self.prot.pop(i, None)
        self.emit("forget", "", {"keep": list(self.objs)}, [], {})

    def check_db(self):
        now = listing(self.db)
        self.emit("db", "", {}, [], {"changed": now != self.dbstate})
        self.dbstate = now

    def close(self):
        self.check_db()
        shutil.rmtree(self.work, ignore_errors=True)

    def _given(self, **args):
        """
        The arguments as they are given to a call: with defaults omitted,
        all as keywords, or by position. args: name=(value, default)
        """
        self.calls += 1
        if self.calls % 3 == 0:
            return [v for v, _ in args.values()], {}
        return [], {k: v for k, (v, d) in args.items()
                    if self.calls % 3 == 1 or v is not d and v != d}

    def _full(self, path):
        """The path of a file in different types."""
        self.calls += 1
        full = self.path(path)
        return pathlib.Path(full) if self.calls % 5 == 0 else full

    # -- operations --------------------------------------------------------
    def new(self, i, conv, version="latest", mandatory=False, verify="auto"):
        args, kw = self._given(
            mandatory=(mandatory, False), version=(version, "latest"),
            verify=(verify, "auto"))
        res, exc, msg, _, texts = self.call(
            lambda: self.sf.Sofa(conv, *args, **kw))
        self.objs.pop(i, None)
        self.seen.pop(i, None)
        if res is not None:
            self.objs[i] = res
        issues = set().union(*[iss.parse(t) for t in texts]) if texts \
            else set()
        return self.emit("new", i, {
            "conv": esc(conv) if isinstance(conv, str) else "",
            "str": isinstance(conv, str), "version": version,
            "mandatory": bool(mandatory), "verify": str(verify).lower()},
            exc, {"issues": iss.as_json(issues)})

    def set(self, i, name, value):
        a = {"n": esc(name), "x": project_arg(value)}
        res, exc, *_ = self.call(
            lambda: setattr(self.objs[i], name, value))
        return self.emit("set", i, a, exc, {})

    def delete(self, i, name):
        obj = self.objs[i]
        self.deleted += 1
        # both ways of deleting data in turn
        res, exc, *_ = self.call(
            (lambda: delattr(obj, name)) if self.deleted % 2
            else (lambda: obj.delete(name)))
        return self.emit("del", i, {"n": esc(name)}, exc, {})

    def protect(self, i, value):
        res, exc, *_ = self.call(
            lambda: setattr(self.objs[i], "protected", value))
        return self.emit("protect", i, {
            "bool": isinstance(value, bool), "v": bool(value)}, exc, {})

    def restore(self, i):
        """Assign the current value of the protection."""
        value = self.objs[i].protected
        res, exc, *_ = self.call(
            lambda: setattr(self.objs[i], "protected", value))
        return self.emit("protect", i, {"bool": True, "v": bool(value)},
                         exc, {})

    def add_variable(self, i, name, value, dtype, dims):
        a = {"n": esc(name), "x": project_arg(value), "t": str(dtype),
             "dims": "none" if dims is None else dims}
        res, exc, _, text, texts = self.call(
            lambda: self.objs[i].add_variable(name, value, dtype, dims))
        return self.emit("add", i, a, exc, {"told": _dimension_told(texts)})

    def add_attribute(self, i, name, value):
        a = {"n": esc(name), "x": project_arg(value), "t": "attribute",
             "dims": "none"}
        res, exc, _, text, texts = self.call(
            lambda: self.objs[i].add_attribute(name, value))
        return self.emit("add", i, a, exc, {"told": _dimension_told(texts)})

    def add_missing(self, i, mandatory=True, optional=True, verbose=True):
        args, kw = self._given(
            mandatory=(mandatory, True), optional=(optional, True),
            verbose=(verbose, True))
        res, exc, msg, text, _ = self.call(
            lambda: self.objs[i].add_missing(*args, **kw))
        added = re.findall(r"^- (\S+) \((mandatory|optional)\)\s*$", text,
                           re.M)
        return self.emit("addmissing", i, {
            "m": mandatory, "o": optional, "verbose": verbose}, exc,
            {"added": [esc(n) for n, _ in added], "silent": text == "",
             "mand": [esc(n) for n, k in added if k == "mandatory"]})

    def verify(self, i, mode="write", handling="raise"):
        args, kw = self._given(issue_handling=(handling, "raise"),
                               mode=(mode, "write"))
        res, exc, msg, text, texts = self.call(
            lambda: self.objs[i].verify(*args, **kw))
        found = set()
        for t in texts:
            found |= iss.lines(t, "W")
        if "ValueError" in exc:
            found |= iss.lines(msg, "E")
        if handling == "print":
            found |= iss.lines(text)
        if isinstance(res, str):
            found |= iss.lines(res)
        lines = [{"c": c, "n": esc(n), "x": esc(x)} for c, n, x in sorted(
            {(c, n, x) for _, c, n, x in found})]
        return self.emit("verify", i, {"mode": mode, "handling": handling},
                         exc, {"issues": iss.as_json({i[:3] for i in found}),
                               "lines": lines,
                               "none": res is None, "quiet": text == "",
                               "nowarn": not texts})

    def copy(self, i, j):
        res, exc, *_ = self.call(lambda: self.objs[i].copy())
        self.seen.pop(j, None)
        self.objs.pop(j, None)
        if res is not None:
            self.objs[j] = res
        return self.emit("copy", j, {"src": i}, exc, {})

    def poke(self, i, name, idx, value):
        """Change an array in place."""
        arr = self.objs[i].__dict__[name]
        a = {"n": esc(name), "i": idx + 1}
        res, exc, *_ = self.call(lambda: arr.reshape(-1).__setitem__(
            idx, value) if arr.flags.c_contiguous
            else arr.__setitem__(np.unravel_index(idx, arr.shape), value))
        a["v"] = tok(value)
        return self.emit("poke", i, a, exc, {})

    def probe(self, i):
        """Read only and mandatory entries."""
        obj = deepcopy(self.objs[i])
        ro, mand = [], []
        for n, v in entries(obj).items():
            with warnings.catch_warnings(), \
                    contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                try:
                    setattr(obj, n, v)
                except TypeError:
                    ro.append(esc(n))
                cp = deepcopy(obj)
                try:
                    delattr(cp, n)
                except TypeError:
                    mand.append(esc(n))
                except Exception:  # noqa: BLE001 (unknown to the convention)
                    pass
        return self.emit("probe", i, {}, [], {"ro": ro, "mand": mand})

    def raw(self, i, name, value, dtype, dims):
        """
        Add custom data without any checks, as if it came from elsewhere.
        (There is no public way to get some of the names.)
        """
        obj = self.objs[i]
        add = getattr(obj, "_add_custom_api_entry", None)
        kw = {"key": name, "value": value, "flags": None,
              "dimensions": dims, "dtype": dtype}
        if add is None or hasattr(obj, name) or set(
                inspect.signature(add).parameters) != set(kw):
            return None
        a = {"n": esc(name), "x": project_arg(value), "t": dtype,
             "dims": "none" if dims is None else dims}
        res, exc, *_ = self.call(lambda: add(**kw))
        return self.emit("raw", i, a, exc, {})

    def conventions(self):
        """The list of all conventions."""
        res, exc, msg, text, _ = self.call(self.sf.list_conventions)
        found = re.findall(r"^(\S+) \(Version (\S+)\)$", text, re.M)
        return self.emit("conventions", "", {}, exc, {
            "ids": [f"{n}_{v}" for n, v in found]})

    def roundtrip(self, i, j):
        """Object j was read from a file that was written from object i."""
        def look(k):
            res, exc, msg, text, _ = self.call(
                lambda: self.objs[k].info("all"))
            return {n: e for n, e in parse_info(text).items()}
        a, b = look(i), look(j)
        return self.emit("rt", "", {"a": i, "b": j}, [], {"a": a, "b": b})

    # -- files -------------------------------------------------------------
    def _filechanges(self):
        now, old = listing(self.work), self.files
        ch = {p: ncfile.content(self.path(p)) for p in now
              if now[p] != old.get(p) and not p.endswith(".txt")}
        gone = [p for p in old if p not in now]
        other = [p for p in now if now[p] != old.get(p)
                 and p.endswith(".txt")]
        self.files = now
        return {"ch": ch, "gone": gone, "other": other}

    def write(self, i, path, compression=4):
        full = self._full(path)
        before = dict(self.files)
        args, kw = self._given(compression=(compression, 4))
        res, exc, msg, text, texts = self.call(
            lambda: self.sf.write_sofa(full, self.objs[i], *args, **kw))
        try:
            files = self._filechanges()
            files["broken"] = False
        except OSError:
            self.files = listing(self.work)
            files = {"ch": {}, "gone": [], "other": [], "broken": True}
        target = path if path.endswith(".sofa") else path + ".sofa"
        files["same"] = (target in before
                         and before[target] == self.files.get(target))
        return self.emit("write", i, {"path": path, "comp": compression},
                         exc, {"f": files, "outdated": any(
                             "outdated" in t.lower() for t in texts)})

    def interrupt(self, i, path, compression=4, kind="full", at=0):
        """
        Write in a process of its own. Files can not become larger than `at`
        bytes, writing more raises errors (as if there was no space left, kind
        full) or kills the process (killed), or the process is killed
        (killedat) or stopped by the user (stopped) at a number of calls.
        """
        full = self.path(path)
        before = dict(self.files)
        places = self._places()
        pid = os.fork()
        if not pid:
            code = 1
            try:
                code = self._interrupted(i, full, compression, kind, at)
            finally:
                os._exit(code)
        status = os.waitpid(pid, 0)[1]
        if os.WIFSIGNALED(status):
            end = "killed"
        else:
            end = {0: "done", 1: "raised"}.get(os.WEXITSTATUS(status), "?")
        target = path if path.endswith(".sofa") else path + ".sofa"
        rest = sorted(self._places() - places - {self.path(target)})
        for p in rest[::-1]:
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        try:
            files = self._filechanges()
            files["broken"] = False
        except OSError:
            self.files = listing(self.work)
            files = {"ch": {}, "gone": [], "other": [], "broken": True}
        files["same"] = (target in before
                         and before[target] == self.files.get(target))
        return self.emit("interrupt", i, {
            "path": path, "comp": compression, "kind": kind, "at": at}, [],
            {"f": files, "end": end, "rest": bool(rest)})

    def _interrupted(self, i, full, compression, kind, at):
        calls = 0

        def hook(frame, event, arg):
            nonlocal calls
            calls += 1
            if calls == at:
                sys.setprofile(None)
                if kind == "stopped":
                    raise KeyboardInterrupt
                os.kill(os.getpid(), signal.SIGKILL)

        if kind in ("full", "killed"):
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL
                          if kind == "killed" else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (at, at))

        with warnings.catch_warnings(), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            try:
                if kind not in ("full", "killed"):
                    sys.setprofile(hook)
                self.sf.write_sofa(full, self.objs[i], compression)
                sys.setprofile(None)
            except BaseException:  # noqa: B036
                sys.setprofile(None)
                return 1
        if kind == "count":
            with open(full + ".count", "w") as f:
                f.write(str(calls))
        return 0

    def calls_of_write(self, i, path, compression=4):
        """Number of calls that are made for writing, 0 if it fails."""
        with tempfile.TemporaryDirectory(dir=self.root) as folder:
            full = os.path.join(folder, "x.sofa")
            target = path if path.endswith(".sofa") else path + ".sofa"
            if target in self.files:
                shutil.copy(self.path(target), full)
            pid = os.fork()
            if not pid:
                code = 1
                try:
                    code = self._interrupted(i, full, compression, "count", 0)
                finally:
                    os._exit(code)
            if os.waitpid(pid, 0)[1]:
                return 0
            with open(full + ".count") as f:
                return int(f.read())

    def _places(self):
        """All files and folders."""
        return {os.path.join(root, n) for root, a, b in os.walk(self.work)
                for n in a + b}

    def foreign(self, path, g, dims, variables):
        """Put a file that was not written by sofar."""
        ncfile.create(self.path(path), g, dims, variables)
        files = self._filechanges()
        return self.emit("mkfile", "", {"path": path}, [], {"f": files})

    def cleanup(self):
        """Forget all objects and files."""
        for sid in sorted(self.opened):
            self.stream_close(sid)
        self.forget()
        if self.files:
            for p in list(self.files):
                os.remove(self.path(p))
            self.emit("rmfile", "", {"path": ""}, [],
                      {"f": self._filechanges()})

    def remove(self, path):
        os.remove(self.path(path))
        return self.emit("rmfile", "", {"path": path}, [],
                         {"f": self._filechanges()})

    def read(self, i, path, verify="auto", verbose=True):
        args, kw = self._given(verify=(verify, "auto"),
                               verbose=(verbose, True))
        full = self._full(path)
        res, exc, msg, text, texts = self.call(
            lambda: self.sf.read_sofa(full, *args, **kw))
        self.seen.pop(i, None)
        self.objs.pop(i, None)
        if res is not None:
            self.objs[i] = res
        found = set().union(*[iss.parse(t, "W") for t in texts]) \
            if texts else set()
        custom = []
        m = re.search(r"custom entries\n-+\n(.*)\n", text)
        if m:
            custom = [esc(n) for n in m.group(1).split(", ")]
        return self.emit("read", i, {
            "path": path, "verify": str(verify).lower(), "verbose": verbose},
            exc, {"issues": iss.as_json(found), "custom": custom,
                  "silent": text.strip() == "",
                  "missing": _missing(texts),
                  "files": self._same_files()})

    def _same_files(self):
        now = listing(self.work)
        same = now == self.files
        self.files = now
        return same

    def read_netcdf(self, i, path):
        full = self._full(path)
        res, exc, _, _, texts = self.call(
            lambda: self.sf.read_sofa_as_netcdf(full))
        self.seen.pop(i, None)
        self.objs.pop(i, None)
        if res is not None:
            self.objs[i] = res
        return self.emit("readnc", i, {"path": path}, exc,
                         {"files": self._same_files(),
                          "missing": _missing(texts)})

    def _stream_values(self, s, names, dims, later=False):
        """What accessing names and dimensions of a stream gives."""
        vals, sizes, found = {}, {}, []

        def exception(n, e):
            vals[esc(n)] = {"k": "exc", "sh": [], "w": [],
                            "x": [c.__name__ for c in type(e).__mro__]}

        def read(n, v):
            if isinstance(v, str):
                vals[esc(n)] = {"k": "attr", "sh": [], "x": [esc(v)], "w": []}
            elif hasattr(v, "dimensions"):
                kind = "S1" if v.dtype == "S1" else "f8"
                v.set_auto_mask(kind != "S1")
                if kind == "S1":
                    v.set_auto_chartostring(False)
                vals[esc(n)] = dict(k="var", **ncfile.data(v[:], kind))
            else:
                vals[esc(n)] = {"k": "attr", "sh": [], "w": [],
                                "x": [ncfile.attr(v)]}

        for n in names:
            try:
                v = getattr(s, n)
                found.append((n, v)) if later else read(n, v)
            except Exception as e:  # noqa: BLE001
                exception(n, e)
        for n, v in reversed(found):
            try:
                read(n, v)
            except Exception as e:  # noqa: BLE001
                exception(n, e)
        for d in dims:
            try:
                sizes[d] = {"exc": [], "v": int(s.get_dimension(d))}
            except Exception as e:  # noqa: BLE001
                sizes[d] = {"exc": [c.__name__ for c in type(e).__mro__],
                            "v": 0}
        return vals, sizes

    @contextlib.contextmanager
    def _stream(self, path, sid):
        """The stream of an id, or a new one."""
        if sid is not None:
            yield self.streams[sid]
        else:
            full = path if path.endswith(".sofa") else path + ".sofa"
            with self.sf.SofaStream(self.path(full)) as s:
                yield s

    def stream(self, path, names, dims, sid=None):
        """Access names and dimensions of an open SofaStream."""
        out = {"vals": {}, "dims": {}}

        def run():
            with self._stream(path, sid) as s:
                out["vals"], out["dims"] = self._stream_values(
                    s, names, dims, sid is not None)
        res, exc, *_ = self.call(run)
        return self.emit("stream", "", self._sid(path, sid), exc, dict(
            out, files=self._same_files()))

    @staticmethod
    def _sid(path, sid):
        return {"path": path} if sid is None else {"path": path, "sid": sid}

    def stream_list(self, path, sid=None):
        def run():
            with self._stream(path, sid) as s:
                s.list_dimensions
        res, exc, msg, text, _ = self.call(run)
        return self.emit("streamlist", "", self._sid(path, sid), exc, {
            "dims": _dimension_lines(text),
            "texts": _dimension_texts(text)})

    def stream_open(self, sid, path=None):
        """Enter a new stream, or again (without path)."""
        def run():
            if path is not None:
                self.streamed[sid] = path
                self.streams[sid] = self.sf.SofaStream(self.path(path))
            self.streams[sid] = self.streams[sid].__enter__()
        res, exc, *_ = self.call(run)
        if not exc:
            self.opened.add(sid)
        return self.emit("sopen", "", {"sid": sid,
                                       "path": self.streamed[sid]}, exc,
                         {"files": self._same_files()})

    def stream_close(self, sid, error=False):
        """Leave a stream."""
        def run():
            if not error:
                return self.streams[sid].__exit__(None, None, None)
            try:
                raise KeyError("error")
            except KeyError as e:
                return self.streams[sid].__exit__(
                    type(e), e, e.__traceback__)
        res, exc, *_ = self.call(run)
        self.opened.discard(sid)
        return self.emit("sclose", "", {"sid": sid, "error": error}, exc, {
            "swallowed": bool(res), "held": self._held(self.streamed[sid]),
            "files": self._same_files()})

    def _held(self, path):
        """This process has the file open."""
        full = os.path.realpath(self.path(path))
        for fd in os.listdir("/proc/self/fd"):
            try:
                if os.path.realpath("/proc/self/fd/" + fd) == full:
                    return True
            except OSError:
                pass
        return False

    # -- upgrade, comparison, queries ----------------------------------------
    def upgrade(self, i, target=None, verify="auto"):
        args, kw = self._given(target=(target, None), verify=(verify, "auto"))
        res, exc, msg, text, texts = self.call(
            lambda: self.objs[i].upgrade_convention(*args, **kw))
        return self.emit("upgrade", i, {
            "target": "none" if target is None else target,
            "verify": str(verify).lower()}, exc, {
            "none": res is None,
            "targets": list(res) if isinstance(res, (list, tuple)) else [],
            "told": self._upgrade_told(text)})

    def _upgrade_told(self, text):
        """What is printed about an upgrade."""
        return {
            "uptodate": "is up to date" in text,
            "norules": "missing upgrade rules" in text,
            "invalid": "is invalid" in text,
            "targets": ["_".join(p) for p in re.findall(
                r"^- (\S+) v(\S+)\s*$", text, re.M)],
            "moved": [{"src": esc(m[0]), "dst": esc(m[1]),
                       "axis": [int(k) for k in re.findall(r"\d+", m[2])],
                       "dims": re.findall(r"\w", m[3])}
                      for m in re.findall(
                          r"^- Moving (\S+) to (\S+)\."
                          r"(?: Moving axis (.*?)\.)?"
                          r"(?: WARNING: Dimensions (.*?) are .*)?\s*$",
                          text, re.M)],
            "removed": [esc(n) for n in re.findall(
                r"^- Deleting (\S+)\.\s*$", text, re.M)],
            "added": [esc(n) for n in re.findall(
                r"^- (\S+) \((?:mandatory|optional)\)\s*$", text, re.M)],
            "messages": [m for m in self.messages if m in text]}

    def equals(self, i, j, exclude=None, verbose=True):
        args, kw = self._given(verbose=(verbose, True),
                               exclude=(exclude, None))
        res, exc, msg, text, texts = self.call(
            lambda: self.sf.equals(self.objs[i], self.objs[j], *args, **kw))
        return self.emit("equals", i, {
            "b": j, "exclude": "none" if exclude is None else exclude,
            "verbose": verbose, "near": self._near(i, j)}, exc, {
            "eq": bool(res) if isinstance(res, (bool, np.bool_)) else "?",
            "warned": bool(texts)})

    def _near(self, i, j):
        """Pairs of different numbers that agree within the tolerance."""
        from fractions import Fraction
        out = set()
        for n, a in self.seen[i].items():
            b = self.seen[j].get(n)
            if b is None or a["v"] == b["v"] or a["t"] not in "iuf" \
                    or b["t"] not in "iuf" or len(a["v"]) != len(b["v"]):
                continue
            for x, y in zip(a["v"], b["v"]):
                try:
                    fx, fy = Fraction(x), Fraction(y)
                except ValueError:
                    continue
                if x != y and abs(fx - fy) <= Fraction(1, 10**7) * abs(fy):
                    out.add((x, y))
        return [list(p) for p in sorted(out)]

    def dimension(self, i, d):
        res, exc, *_ = self.call(lambda: self.objs[i].get_dimension(d))
        return self.emit("dim", i, {"d": d}, exc,
                         {"v": int(res) if res is not None else -1})

    def list_dimensions(self, i):
        res, exc, msg, text, _ = self.call(
            lambda: self.objs[i].list_dimensions)
        return self.emit("dims", i, {}, exc,
                         {"dims": _dimension_lines(text),
                          "texts": _dimension_texts(text)})

    def inspect(self, i, file=None, handling="ignore"):
        full = None if file is None else self.path(file)
        args, kw = self._given(file=(full, None),
                               issue_handling=(handling, "print"))
        res, exc, msg, text, _ = self.call(
            lambda: self.objs[i].inspect(*args, **kw))
        same = True
        if full is not None and not exc:
            with open(full) as f:
                stored = f.read()
            same = text.strip().endswith(stored.strip()) \
                and (handling == "print" or text.strip() == stored.strip())
            text = stored
        self.files = listing(self.work)
        out = parse_inspect(text)
        for n, v in entries(self.objs[i]).items():
            settle(out["e"].get(esc(n)), v)
        return self.emit("inspect", i, {"file": file or "none"}, exc,
                         dict(same=same, **out))

    def stream_inspect(self, path, file=None, sid=None):
        full = path if path.endswith(".sofa") else path + ".sofa"
        target = None if file is None else self.path(file)

        def run():
            with self._stream(path, sid) as s:
                s.inspect() if target is None else s.inspect(target)
        res, exc, msg, text, _ = self.call(run)
        same = True
        if target is not None and not exc:
            with open(target) as f:
                same = f.read().strip() == text.strip()
        self.files = listing(self.work)
        out = parse_inspect(text)
        values = {} if exc else ncfile.values(self.path(full))
        for n, v in values.items():
            settle(out["e"].get(esc(n)), v)
        return self.emit("streaminspect", "", self._sid(path, sid), exc,
                         dict(same=same, **out))

    def info(self, i, what):
        res, exc, msg, text, _ = self.call(
            lambda: self.objs[i].info() if what == "all"
            else self.objs[i].info(what))
        return self.emit("info", i, {"what": esc(what)}, exc,
                         {"e": parse_info(text), "n": len(parse_info(text)),
                          "repr": self._repr(i)})

    def _repr(self, i):
        try:
            return esc(repr(self.objs[i]))
        except Exception as e:  # noqa: BLE001
            return type(e).__name__


def _missing(texts):
    """Variables of which the user is told that data is missing."""
    found = [re.match(r"^Entry (\S+) contains missing data", t)
             for t in texts]
    return [esc(m.group(1).replace(".", "_")) for m in found if m]


def _dimension_told(texts):
    return any("custom dimension" in t.lower() for t in texts)


def _dimension_lines(text):
    return {m[0]: int(m[1]) for m in
            re.findall(r"^(\S+) = (-?\d+)\b", text, re.M)}


def _dimension_texts(text):
    return {m[0]: esc(m[1].strip()) for m in
            re.findall(r"^(\S+) = -?\d+ (.*?)(?: \(set by .*)?$", text, re.M)}


def _numbers(text):
    """Tokens of the numbers or strings in a printed value."""
    if "'" in text or '"' in text:
        return [esc(a or b) for a, b in
                re.findall(r"'([^']*)'|\"([^\"]*)\"", text)]
    out = []
    for t in re.findall(r"[^\s\[\],]+", text):
        try:
            out.append(tok(float(t)))
        except ValueError:
            out.append(esc(t))
    return out


def settle(line, value):
    """Numbers are printed rounded: replace them by the ones they stand for."""
    if line is None or isinstance(value, str):
        return
    flat = np.ravel(np.asarray(value))
    if flat.dtype.kind not in "iuf" or len(line["x"]) != flat.size:
        return
    for k, (t, x) in enumerate(zip(line["x"], flat)):
        try:
            if np.isclose(float(t), float(x), 1e-7, 1e-8):
                line["x"][k] = tok(x)
        except ValueError:
            pass


def parse_inspect(text):
    lines = text.split("\n")
    head, out, i = lines[0] if lines else "", {}, 2
    while i < len(lines):
        m = re.match(r"^(\S+) : (.*)$", lines[i])
        if not m:
            i += 1
            continue
        name, val = esc(m.group(1)), m.group(2)
        i += 1
        block = []
        while i < len(lines) and not re.match(r"^\S+ : ", lines[i]) \
                and lines[i].strip():
            block.append(lines[i])
            i += 1
        d = re.match(r"^\(((?:\w=\d+)(?:, \w=\d+)*)\)$", val)
        if d:
            dims = [p.split("=") for p in d.group(1).split(", ")]
            out[name] = {"dims": [p[0] for p in dims],
                         "sh": [int(p[1]) for p in dims], "raw": "",
                         "x": _numbers("\n".join(block)),
                         "has": bool(block)}
        else:
            val = "\n".join([val] + block)
            out[name] = {"dims": [], "sh": [], "raw": esc(val),
                         "x": _numbers(val), "has": True}
    return {"head": esc(head), "e": out}


def parse_info(text):
    out, name, last = {}, None, None
    for line in text.split("\n"):
        m = re.match(r"^(\S+) : (attribute|double|string)(?: \(([^)]*)\))?"
                     r"(, mandatory|, optional)?(, read only)?\s*$", line)
        if m:
            out[esc(m.group(1))] = {
                "t": m.group(2), "dims": m.group(3) or "",
                "m": m.group(4) == ", mandatory", "r": bool(m.group(5)),
                "about": "", "raw": "", "x": []}
            last = out[esc(m.group(1))]
            continue
        if last is not None:
            if line.startswith("    "):
                last["about"] = esc(line[4:])
            last = None
            continue
        if re.match(r"^\S+$", line) and not set(line) == {"-"}:
            name = esc(line)
            out[name] = {"about": "", "raw": "", "x": []}
            continue
        m = re.match(r"^    (type|mandatory|read only|shape|default|comment)"
                     r": (.*)$", line)
        if m and name is not None:
            k, v = m.groups()
            if k == "type":
                out[name]["t"] = v
            elif k == "shape":
                out[name]["dims"] = "" if v == "NONE" else v
            elif k == "comment":
                out[name]["about"] = esc(v)
            elif k == "default":
                out[name].update(raw=esc(v), x=_numbers(v))
            else:
                out[name][k[0]] = v == "True"
    return out
