"""Projection of real values to abstract values and back (see SofaValues.tla)."""
import numpy as np


def esc(s):
    """Text in which each character is printable ASCII."""
    return "".join(c if " " <= c <= "~" and c not in '~"\\'
                   else f"~{ord(c):06x}" for c in s)


def tok(x):
    if x is np.ma.masked:
        return "--"
    if isinstance(x, bytes):
        x = x.decode("utf-8", "replace")
    if isinstance(x, str):
        return esc(str(x))
    if isinstance(x, (bool, np.bool_)):
        return str(bool(x))
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, (complex, np.complexfloating)):
        return esc(repr(complex(x)))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x == int(x) if np.isfinite(x) else False:
            if abs(x) < 1e15:
                return str(int(x))
        return repr(x)
    return esc(repr(x))


def _width(x):
    if isinstance(x, bytes):
        return len(x)
    return len(str(x).encode("utf-8", "replace"))


def rec(k, t, sh, v, w=()):
    return {"k": k, "t": t, "sh": list(sh), "v": list(v), "w": list(w)}


def array(k, a):
    a_ = a if isinstance(a, np.ma.MaskedArray) else np.asarray(a)
    flat = [a_.reshape(-1)[i] for i in range(a_.size)]
    text = a_.dtype.kind in "US"
    return rec(k, a_.dtype.kind, a_.shape, [tok(x) for x in flat],
               [_width(x) for x in flat] if text else [])


def project(v):
    """Abstract value of something contained in a SOFA object."""
    if isinstance(v, str):
        return rec("s", "U", [], [esc(str(v))], [_width(v)])
    if isinstance(v, np.ndarray):
        return array("a", v)
    if isinstance(v, np.bytes_):
        return rec("n", "S", [], [tok(v)], [_width(v)])
    if isinstance(v, np.generic):
        return rec("n", v.dtype.kind, [], [tok(v)])
    if isinstance(v, bool):
        return rec("n", "b", [], [tok(v)])
    if isinstance(v, (int, float)):
        return rec("n", "i" if isinstance(v, int) else "f", [], [tok(v)])
    if isinstance(v, complex):
        return rec("n", "c", [], [tok(v)])
    if isinstance(v, dict):
        return rec("d", "O", [], [esc(repr(v))])
    if isinstance(v, list):
        return rec("o", "L", [], [esc(repr(v))])
    return rec("o", "O", [], [esc(repr(v))])


def project_arg(v):
    """Abstract value of something that is assigned to an entry."""
    if isinstance(v, (list, tuple, range)):
        try:
            return array("l", np.array(v))
        except ValueError:       # lists of different lengths
            return rec("x", "O", [], [esc(repr(v))])
    if isinstance(v, bytes):
        return rec("n", "S", [], [tok(v)], [_width(v)])
    return project(v)


def unescape(s):
    out, i = "", 0
    while i < len(s):
        if s[i] == "~":
            out += chr(int(s[i+1:i+7], 16))
            i += 7
        else:
            out += s[i]
            i += 1
    return out


def realise(x):
    """A real value for an abstract value (used to replay behaviours)."""
    def one(v):
        if x["t"] == "U":
            return unescape(v)
        if x["t"] == "S":
            return unescape(v).encode()
        if x["t"] == "b":
            return v == "True"
        if x["t"] in "iu":
            return int(v)
        return float(v)
    if x["k"] == "s":
        return unescape(x["v"][0])
    if x["k"] == "n":
        return one(x["v"][0])
    if x["k"] == "o":
        return None
    if x["k"] == "d":
        return {"a": 1}
    kind = {"i": "int64", "f": "float64", "u": "uint8", "b": "bool",
            "c": "complex"}.get(x["t"])
    a = np.array([one(v) for v in x["v"]], dtype=kind).reshape(x["sh"])
    return a if x["k"] == "a" else a.tolist()
