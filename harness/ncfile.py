"""Abstract content of netCDF files, read and written without sofar."""
import netCDF4
import numpy as np
from .values import esc, tok, _width


def attr(v):
    return esc(v) if isinstance(v, str) else "#" + tok(np.asarray(v).item())


def content(path):
    """[g, dims, v] of a file (see SofaFile.tla)."""
    with netCDF4.Dataset(path, "r") as f:
        f.set_auto_mask(False)
        f.set_auto_chartostring(False)
        out = {"g": {a: attr(f.getncattr(a)) for a in f.ncattrs()},
               "dims": {d: len(f.dimensions[d]) for d in f.dimensions},
               "v": {}, "z": {}}
        for name, var in f.variables.items():
            var.set_auto_mask(var.dtype != "S1")
            flt = var.filters() or {}
            out["z"][name] = (flt.get("complevel", 0)
                              if flt.get("zlib") else 0)
            kind = "S1" if var.dtype == "S1" else (
                "f8" if var.dtype == np.float64 else var.dtype.kind)
            out["v"][name] = dict(
                d=list(var.dimensions), t=kind, a={
                    a: attr(var.getncattr(a)) for a in var.ncattrs()
                    if a != "_Encoding"},
                **data(var[:], kind))
    return out


def data(value, kind):
    """Shape and elements of the values of a netCDF variable."""
    if not np.ma.is_masked(value) or kind == "S1":
        value = np.asarray(value)
    if kind == "S1":
        value = np.atleast_1d(value)
        n = value.shape[-1]
        rows = value.reshape(-1, n) if n else np.zeros(
            (int(np.prod(value.shape[:-1])), 0), "S1")
        text = [b"".join(c if c else b"\0" for c in row).rstrip(b"\0")
                for row in rows]
        return {"sh": list(value.shape[:-1]), "x": [tok(t) for t in text],
                "w": [_width(t) for t in text]}
    flat = value.reshape(-1)
    flat = [flat[i] for i in range(flat.size)]
    return {"sh": list(value.shape), "x": [tok(v) for v in flat], "w": []}


def create(path, g, dims, variables):
    """
    Write a file. variables: {name: (dims, dtype, value, attributes)}, value
    is a character array for type S1.
    """
    with netCDF4.Dataset(path, "w", format="NETCDF4") as f:
        for d, n in dims.items():
            f.createDimension(d, n)
        for k, v in g.items():
            f.setncattr(k, v)
        for name, (d, dtype, value, attrs) in variables.items():
            var = f.createVariable(name, dtype, d)
            var[:] = value
            for k, v in attrs.items():
                var.setncattr(k, v)


def values(path):
    """Numeric data of a file under the names in SOFA objects."""
    with netCDF4.Dataset(path, "r") as f:
        f.set_auto_mask(False)
        f.set_auto_chartostring(False)
        return {n.replace(".", "_"): v[:] for n, v in f.variables.items()
                if v.dtype != "S1"}
