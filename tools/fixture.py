"""A copy of sofar (in the current directory) with conventions to work on."""
import atexit
import contextlib
import io
import os
import shutil
import sys
import tempfile
import warnings  # noqa: F401

import numpy as np  # noqa: F401

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from db import dbgen  # noqa: E402

ROOT = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, ROOT, True)
os.makedirs(os.path.join(ROOT, "sofar"))
for _name in os.listdir("sofar"):
    if _name.endswith(".py"):
        shutil.copy(os.path.join("sofar", _name),
                    os.path.join(ROOT, "sofar", _name))
DB = dbgen.realistic()
CONVENTIONS = os.path.join(ROOT, "sofar", "sofa_conventions", "conventions")
dbgen.write_db(os.path.join(ROOT, "sofar", "sofa_conventions"), DB)
os.chdir(ROOT)
sys.path.insert(0, ROOT)
import sofar as sf  # noqa: E402
assert sf.__file__.startswith(ROOT)


def raises(error, function, *args, **kwargs):
    """True if the call raises the error."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            function(*args, **kwargs)
    except error:
        return True
    return False


def quiet(function, *args, **kwargs):
    """Call without output."""
    with contextlib.redirect_stdout(io.StringIO()):
        return function(*args, **kwargs)


def printed(function, *args, **kwargs):
    """What a call prints."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        function(*args, **kwargs)
    return out.getvalue()


def data(sofa):
    return {k: v for k, v in vars(sofa).items() if not k.startswith("_")}
