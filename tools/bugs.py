"""Planted bugs: changes of the library, and programs that show them."""
S, I, U, T, C = ("sofar/sofa.py", "sofar/io.py", "sofar/utils.py",
                 "sofar/sofastream.py", "sofar/update_conventions.py")
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


bug("c01-verify-leaves-unprotected", "C01", [
    (S, """                    self.protected = False
                    setattr(self, key, self._convention[key]["default"])
                    self.protected = True

                # prepare""",
     """                    self.protected = False
                    setattr(self, key, self._convention[key]["default"])

                # prepare""")],
    "verify with returned or printed issues, missing mandatory data, and "
    "another entry of a wrong type (early return)",
    "The object is not protected any more after such a verification, so "
    "that mandatory and read only data can be changed.",
    """
s = sf.Sofa("GeneralTF")
s.protected = False
s.delete("GLOBAL_Title")
s.protected = True
s.GLOBAL_Comment = 4
s.verify(issue_handling="return")
assert raises(TypeError, setattr, s, "GLOBAL_DataType", "FIR")
assert raises(TypeError, s.delete, "Data_Real")
""")

bug("c02-prefix-of-convention", "C02", [
    (S, """os.path.basename(path).startswith(convention + "_")]""",
     """os.path.basename(path).startswith(convention)]""")],
    "a convention whose name is the beginning of the name of another one",
    "The latest version of the wrong convention is loaded.",
    """
s = sf.Sofa("VersionTest")
assert s.GLOBAL_SOFAConventions == "VersionTest"
assert s.GLOBAL_SOFAConventionsVersion == "10.0"
""")

bug("c03-custom-restored-as-convention", "C03", [
    (S, """            for key in self._convention:
                if key in self._custom:
                    del self._custom[key]

            # check""",
     """            for key in self._convention:
                if self._custom and key in self._custom:
                    self._custom = {}

            # check""")],
    "a custom entry that turns out to be part of the convention (netCDF data "
    "that is repaired) next to another custom entry",
    "All custom entries are forgotten.",
    """
from netCDF4 import Dataset
s = sf.Sofa("GeneralTF")
s.add_variable("Temperature", [[25.]], "double", "MI")
quiet(sf.write_sofa, "a.sofa", s)
with Dataset("a.sofa", "a") as f:
    f.SOFAConventions = "Nothing"
n = quiet(sf.read_sofa_as_netcdf, "a.sofa")
n.protected = False
n.GLOBAL_SOFAConventions = "GeneralTF"
n.protected = True
assert n.verify(issue_handling="return") is None
n.Temperature = 3
n.add_attribute("Temperature_Units", "kelvin")
assert n.get_dimension("M") == 1
""")

bug("c04-protection-after-adding", "C04", [
    (S, """        self.protected = True

        if verbose:
            if "-" in added:""",
     """        if verbose:
            self.protected = True
            if "-" in added:""")],
    "add_missing(verbose=False)",
    "The object is not protected any more.",
    """
s = sf.Sofa("GeneralTF", mandatory=True)
s.add_missing(verbose=False)
assert raises(TypeError, s.delete, "Data_Real")
""")

bug("c05-leading-singleton", "C05", [
    (S, """            value = np.atleast_2d(value)
            if value.size == 1:""",
     """            value = np.array(value)
            if value.ndim < 3 or value.shape[0] != 1 or value.shape[-1] != 1:
                value = np.atleast_2d(value)
            else:
                value = value[0]
            if value.size == 1:""")],
    "a nested list with a single first and last dimension",
    "The data looses its first dimension.",
    """
s = sf.Sofa("GeneralTF")
s.Data_Real = [[[1], [2], [3]]]
assert s.Data_Real.shape == (1, 3, 1)
""")

bug("c06-boolean-data", "C06", [
    (S, """                         value.dtype.kind not in ['i', 'f']):""",
     """                         value.dtype.kind in ['c', 'S', 'U', 'O', 'u']):""")],
    "an array of booleans as numeric data",
    "Verification does not detect the wrong type.",
    """
s = sf.Sofa("GeneralTF")
s.Data_Real = np.array([[[True]]])
assert raises(ValueError, s.verify)
""")

bug("c07-reserved-custom-names", "C07", [
    (S, """                if key.replace("GLOBAL_", "") in normative:""",
     """                if key in normative:""")],
    "a custom global attribute named like a variable of the convention",
    "The name is accepted although it is reserved.",
    """
s = sf.Sofa("GeneralTF")
s.add_attribute("GLOBAL_ListenerPosition", "here")
assert raises(ValueError, s.verify)
""")

bug("c08-integer-vector", "C08", [
    (S, """                shape_compare = shape_act[:len(shape_ref)]
""",
     """                shape_compare = tuple(
                    r if k == 0 and a == 1 and len(shape_ref) == 3 else a
                    for k, (a, r) in enumerate(zip(shape_act, shape_ref)))
""")],
    "data with a single measurement while others have more",
    "Data of a single measurement is accepted for any number of them.",
    """
s = sf.Sofa("GeneralTF")
s.Data_Real = np.ones((4, 1, 3))
s.Data_Imag = np.ones((1, 1, 3))
s.N = [1, 2, 3]
assert raises(ValueError, s.verify)
""")

bug("c09-first-dependency-only", "C09", [
    (S, """                    current_error += (f"- {key_dep} must be given if "
                                      f"{key_sofar} is in SOFA object\\n")
                    continue""",
     """                    current_error += (f"- {key_dep} must be given if "
                                      f"{key_sofar} is in SOFA object\\n")
                    break""")],
    "an entry that requires several others of which more than one is missing",
    "Only the first missing dependency is reported.",
    """
s = sf.Sofa("GeneralTF")
s.add_variable("ListenerView", [[1, 0, 0]], "double", "IC")
issues = s.verify(issue_handling="return")
for n in ("ListenerView_Type", "ListenerView_Units"):
    assert n + " must be given" in issues, issues
""")

bug("c10-order-of-units", "C10", [
    (S, """        for unit_test, unit_ref in zip(units_test, units_ref):""",
     """        for unit_test, unit_ref in zip(
                sorted(units_test), sorted(units_ref)):""")],
    "several units in the wrong order",
    "The order of units is not checked any more.",
    """
s = sf.Sofa("GeneralTF")
s.SourcePosition_Type = "spherical"
s.SourcePosition_Units = "metre, degree, degree"
assert raises(ValueError, s.verify)
s.SourcePosition_Units = "degree, degree, metre"
s.verify()
s.SourcePosition_Units = "degrees degrees meter"
s.verify()
""")

bug("c11-deprecated-and-preliminary", "C11", [
    (S, """                warning_msg += msg

        # warn if preliminary conventions versions are used
        if float(""",
     """                warning_msg += msg

        # warn if preliminary conventions versions are used
        elif float(""")],
    "a deprecated convention of a preliminary version",
    "Only one of the two issues is reported.",
    """
s = sf.Sofa("SimpleFreeFieldTF", version="0.4", verify=False)
issues = s.verify(issue_handling="return", mode="read")
assert "deprecated" in issues and "preliminary" in issues, issues
""")

bug("c12-warning-with-errors", "C12", [
    (S, """            if issue_handling == "raise":
                warnings.warn(UserWarning(warning_msg), stacklevel=2)
            elif""",
     """            if issue_handling == "raise":
                if error_msg == "\\nERRORS\\n------\\n":
                    warnings.warn(UserWarning(warning_msg), stacklevel=2)
            elif""")],
    "an object with warnings and errors, issues are raised",
    "The warnings are not issued.",
    """
s = sf.Sofa("PrelimTest", verify=False)
s.ListenerPosition_Type = "nonsense"
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    assert raises(ValueError, s.verify)
assert any("preliminary" in str(k.message) for k in w)
""")

bug("c13-verified-before", "C13", [
    (I, """    if verify:
        sofa.verify(mode="write")
""", """    if verify and not hasattr(sofa, "_dimensions"):
        sofa.verify(mode="write")
""")],
    "an object that was valid when it was verified, and changed since then",
    "The invalid object is written.",
    """
s = sf.Sofa("GeneralTF")
quiet(sf.write_sofa, "a.sofa", s)
before = open("a.sofa", "rb").read()
s.ListenerPosition_Type = "nonsense"
assert raises(ValueError, sf.write_sofa, "a.sofa", s)
assert open("a.sofa", "rb").read() == before
assert raises(ValueError, sf.write_sofa, "b.sofa", s)
assert not os.path.exists("b.sofa")
""")

bug("c14-attributes-of-other-variables", "C14", [
    (I, """            sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]""",
     """            sub_keys = [k for k in all_keys if k.startswith(key)
                        and "_" in k[len(key):]]""")],
    "a variable whose name is the beginning of the name of another variable",
    "Attributes of the other variable are written to the variable.",
    """
from netCDF4 import Dataset
s = sf.Sofa("GeneralTF")
s.add_variable("Source", 1, "double", "I")
quiet(sf.write_sofa, "a.sofa", s)
with Dataset("a.sofa") as f:
    assert f["Source"].ncattrs() == [], f["Source"].ncattrs()
""")

bug("c14-single-precision", "C14", [
    (I, """        netcdf_dtype = "f8"
""", """        netcdf_dtype = "f8"
        if value.dtype.itemsize < 8 and value.ndim > 2:
            netcdf_dtype = "f4"
"""), (I, """            if dtype == "f8":
                tmp_var[:] = value""", """            if dtype in ["f4", "f8"]:
                tmp_var[:] = value""")],
    "data of a type with less than 64 bits",
    "Data is not written as double, large integers loose their precision.",
    """
s = sf.Sofa("GeneralTF")
s.Data_Real = np.array([[[2**24 + 1]]], "int32")
quiet(sf.write_sofa, "a.sofa", s)
r = quiet(sf.read_sofa, "a.sofa")
assert float(np.ravel(r.Data_Real)[0]) == 2**24 + 1
""")

bug("c15-custom-dimension-case", "C15", [
    (S, """            dimensions = [d.upper() if d.upper() in "ERMNCIS" else d.lower()
                          for d in dimensions]
""", """            dimensions = {d.upper() if d.upper() in "ERMNCIS" else d.lower():
                          d for d in dimensions}
""")],
    "custom data that has the same dimension twice",
    "The data can not be verified (and thus read) any more.",
    """
s = sf.Sofa("GeneralTF")
s.Data_Real = np.ones((2, 1, 1))
s.Data_Imag = np.ones((2, 1, 1))
s.add_variable("Matrix", [[1, 2], [3, 4]], "double", "MM")
quiet(sf.write_sofa, "a.sofa", s)
r = quiet(sf.read_sofa, "a.sofa")
assert sf.equals(s, r)
""")

bug("c16-strict-reading", "C16", [
    (I, """            sofa.verify(mode="read")
        except""", """            sofa.verify(mode="read" if custom else "write")
        except""")],
    "a file without custom data and with capital letters in units",
    "Valid files are rejected.",
    """
from netCDF4 import Dataset
s = sf.Sofa("GeneralTF")
quiet(sf.write_sofa, "a.sofa", s)
with Dataset("a.sofa", "a") as f:
    f["N"].Units = "Hertz"
assert quiet(sf.read_sofa, "a.sofa").N_Units == "Hertz"
""")

bug("c17-netcdf-text-type", "C17", [
    (I, """                dtype = "string" if file[var].datatype == "S1" else "double"
""", """                dtype = "double" if isinstance(value, np.ndarray) \\
                    and value.ndim > 1 else "string" \\
                    if file[var].datatype == "S1" else "double"
""")],
    "string variables with more than one dimension in a file that is read as "
    "netCDF",
    "The type of the data is wrong, and the data can not be verified.",
    """
s = sf.Sofa("GeneralTF")
s.Data_Real = np.ones((2, 3, 1))
s.Data_Imag = np.ones((2, 3, 1))
s.ReceiverPosition = np.zeros((3, 3))
s.add_variable("Names", np.array([["a", "b", "c"], ["d", "e", "f"]]),
               "string", "MRS")
quiet(sf.write_sofa, "a.sofa", s)
r = quiet(sf.read_sofa_as_netcdf, "a.sofa")
assert sf.equals(s, r)
""")

bug("c18-stream-closes-on-error", "C18", [
    (T, """        self._file = Dataset(self._filename, mode="r")
        return self""", """        self._file = Dataset(self._filename, mode="r")
        self._known = {}
        return self"""),
    (T, """            self._data = self._file.variables[name_netcdf]
""", """            self._data = self._known.setdefault(
                name_netcdf.lower(), self._file.variables[name_netcdf])
""")],
    "two variables whose names differ only in case",
    "The stream returns the data of the other variable.",
    """
s = sf.Sofa("GeneralTF")
s.add_variable("Own", [[1.]], "double", "MI")
s.add_variable("own", [[2.]], "double", "MI")
quiet(sf.write_sofa, "a.sofa", s)
with sf.SofaStream("a.sofa") as f:
    assert float(f.Own[:].squeeze()) == 1
    assert float(f.own[:].squeeze()) == 2
""")

bug("c19-move-to-itself", "C19", [
    (S, """            # delete from Sofa object
            delattr(self, source_sofar)
            # Check""", """            # Check"""),
    (S, """            setattr(self, target_sofar, data)
            # print info""", """            setattr(self, target_sofar, data)
            # delete from Sofa object
            delattr(self, source_sofar)
            # print info""")],
    "a rule that moves axes of data that keeps its name",
    "The data is lost.",
    """
for stem in list(DB["standardized"]) + list(DB["deprecated"]):
    name, version = stem.split("_")
    rules = DB["upgrade"].get(name)
    if not rules:
        continue
    for versions, targets, key in rules["from_to"]:
        for source, move in rules[key]["move"].items():
            if version in versions and source == move["target"]:
                s = sf.Sofa(name, version=version, verify=False)
                n = source.replace(".", "_").replace(":", "_")
                value = np.arange(1, 1 + np.size(getattr(s, n))).reshape(
                    np.shape(getattr(s, n))) * 1.5
                s.protected = False
                setattr(s, n, value)
                s.protected = True
                quiet(s.upgrade_convention, targets[0], verify=False)
                assert n in data(s), (stem, n)
                assert np.allclose(np.sort(np.ravel(getattr(s, n))),
                                   np.sort(np.ravel(value))), (stem, n)
""")

bug("c20-date-anywhere", "C20", [
    (U, """            keys_a = [k for k in keys_a if "Date" not in k]
            keys_b = [k for k in keys_b if "Date" not in k]""",
     """            keys_a = [k for k in keys_a if "date" not in k.lower()]
            keys_b = [k for k in keys_b if "date" not in k.lower()]""")],
    "comparing without dates, data with 'date' in its name",
    "More than the dates is excluded from the comparison.",
    """
a = sf.Sofa("GeneralTF")
b = a.copy()
a.add_attribute("GLOBAL_Lastupdate", "a")
b.add_attribute("GLOBAL_Lastupdate", "b")
assert not sf.equals(a, b, verbose=False, exclude="DATE")
""")

bug("c20-order-of-entries", "C20", [
    (U, """        b = getattr(sofa_b, key)
""", """        b = getattr(sofa_b, keys_b[keys_a.index(key)])
""")],
    "two objects with the same entries in a different order",
    "Identical objects are reported as different.",
    """
a = sf.Sofa("GeneralTF")
b = a.copy()
b.delete("GLOBAL_Comment")
b.GLOBAL_DateCreated = a.GLOBAL_DateCreated
quiet(b.add_missing)
assert list(data(a)) != list(data(b))
assert sf.equals(a, b)
""")

bug("c21-shared-custom", "C21", [
    (S, """        return deepcopy(self)
""", """        new = deepcopy(self)
        if hasattr(self, "_custom"):
            new.__dict__["_custom"] = self._custom
        return new
""")],
    "an object with custom data is copied and custom data of the copy deleted",
    "The original looses its custom data, too.",
    """
a = sf.Sofa("GeneralTF")
a.add_variable("Temperature", [[1]], "double", "MI")
b = a.copy()
b.delete("Temperature")
assert a.verify(issue_handling="return") is None
quiet(sf.write_sofa, "a.sofa", a)
""")

bug("c22-writes-before-confirmation", "C22", [
    (C, """                if data_current != data:
                    updated = True
                    with open(os.path.join(temp, convention), "wb") as file:
                        file.write(data)
                    print(f"- update convention: {convention[:-4]}")
                    update.append(convention)""",
     """                if data_current != data:
                    updated = True
                    with open(standardized_csv, "wb") as file:
                        file.write(data)
                    print(f"- update convention: {convention[:-4]}")""")],
    "an update of a standardized convention that is not confirmed",
    "The source is overwritten before the user is asked.",
    """
import builtins
from unittest import mock
import requests
module = sys.modules["sofar.update_conventions"]
local = os.path.join(ROOT, "c")
os.mkdir(local)
HEAD = "Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"
OLD = (HEAD + "GLOBAL:Title\\tx\\tm\\t\\tattribute\\tc\\n").encode()
NEW = (HEAD + "GLOBAL:Title\\ty\\tm\\t\\tattribute\\tc\\n").encode()


def send(self, request, **kwargs):
    r = requests.Response()
    r.status_code, r.url, r.encoding = 200, request.url, "utf-8"
    if request.url.endswith("csv"):
        r._content = NEW
    elif "deprecated" in request.url:
        r._content = b"<html></html>"
    else:
        r._content = b'<html><a href="A_1.0.csv">A</a></html>'
    return r


with open(os.path.join(local, "A_1.0.csv"), "wb") as f:
    f.write(OLD)
with mock.patch("requests.adapters.HTTPAdapter.send", send), \\
        mock.patch.object(builtins, "input", lambda *a: "n"):
    quiet(sf.update_conventions, local)
    assert open(os.path.join(local, "A_1.0.csv"), "rb").read() == OLD
    assert not os.path.exists(os.path.join(local, "A_1.0.json"))
    quiet(sf.update_conventions, local, assume_yes=True)
    assert open(os.path.join(local, "A_1.0.csv"), "rb").read() == NEW
    assert os.path.exists(os.path.join(local, "A_1.0.json"))
""")

bug("c23-version-digits", "C23", [
    (C, """                line[1] = str(float(line[1]))""",
     """                line[1] = f"{line[1]:.1f}\"""")],
    "a version with more than one decimal",
    "Versions are rounded.",
    """
from sofar.update_conventions import _convention_csv2dict
with open("a.csv", "w") as f:
    f.write("Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"
            "GLOBAL:Version\\t1.25\\trm\\t\\tattribute\\tc\\n"
            "GLOBAL:SOFAConventionsVersion\\t2\\trm\\t\\tattribute\\tc\\n")
d = _convention_csv2dict("a.csv")
assert d["GLOBAL:Version"]["default"] == "1.25"
assert d["GLOBAL:SOFAConventionsVersion"]["default"] == "2.0"
""")

bug("c24-inspect-size", "C24", [
    (S, """                if value.size < 7:""",
     """                if len(value) < 7 and value.size < 13:""")],
    "data with seven to twelve elements in less than seven rows",
    "The values of larger data are printed.",
    """
s = sf.Sofa("GeneralTF")
s.Data_Real = np.arange(8.).reshape(2, 1, 4)
s.Data_Imag = np.ones((2, 1, 4))
s.N = [1, 2, 3, 4]
text = printed(s.inspect)
assert "Data_Real : (M=2, R=1, N=4)" in text
assert "7." not in text.split("Data_Real :")[1].split("Data_Imag")[0], text
""")

bug("c25-stale-dimensions", "C25", [
    (S, """        # Check if the dimensions can be updated
        self._update_dimensions()

        if dimension not in self._api:""",
     """        # Check if the dimensions can be updated
        if dimension not in getattr(self, "_api", {}):
            self._update_dimensions()

        if dimension not in self._api:""")],
    "asking for a dimension, changing the data, and asking again",
    "The size of the dimension before the change is returned.",
    """
s = sf.Sofa("GeneralTF")
assert s.get_dimension("N") == 1
s.Data_Real = np.ones((1, 1, 5))
s.Data_Imag = np.ones((1, 1, 5))
s.N = [1, 2, 3, 4, 5]
assert s.get_dimension("N") == 5
""")

bug("c27-mixed-custom-dimensions", "C27", [
    (S, """                if dimension not in "ERMNCIS":
                    warnings.warn(""",
     """                if dimension not in dimensions[0] + "ERMNCIS":
                    warnings.warn(""")],
    "custom data whose first dimension is a custom dimension",
    "The user is not warned about the new dimension.",
    """
s = sf.Sofa("GeneralTF")


def warned(*args):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        s.add_variable(*args)
    return any("custom dimension" in str(w.message) for w in caught)


assert not warned("One", 1, "double", "mi")
assert warned("Two", 1, "double", "IT")
assert warned("Three", 1, "double", "TI")
""")

bug("c27-listing-without-attributes", "C27", [
    (I, """                        var.replace(".", "_") + "_" + attr, value, None,
                        None, "attribute")
                    custom.append(var.replace(".", "_") + "_" + attr)
""", """                        var.replace(".", "_") + "_" + attr, value, None,
                        None, "attribute")
                    if custom:
                        custom.append(var.replace(".", "_") + "_" + attr)
""")],
    "a file with a custom attribute of a variable and no custom entry before",
    "The custom entry is not mentioned.",
    """
s = sf.Sofa("GeneralTF")
s.add_attribute("SourcePosition_Remark", "left")
quiet(sf.write_sofa, "a.sofa", s)
assert "SourcePosition_Remark" in printed(sf.read_sofa, "a.sofa")
""")

bug("c27-message-of-last-rule", "C27", [
    (S, """            # Check deprecated dimensions
            deprecated_dimensions = \\
                upgrade["move"][source]["deprecated_dimensions"]
            if deprecated_dimensions is not None:""",
     """            # Check deprecated dimensions
            deprecated_dimensions = \\
                upgrade["move"][source]["deprecated_dimensions"]
            if deprecated_dimensions is not None and moveaxis is None:""")],
    "an upgrade that moves the axes of data with a deprecated dimension",
    "The user is not told about deprecated dimensions.",
    """
found = 0
for name in DB["upgrade"]:
    rule = DB["upgrade"][name]
    for versions, targets, key in rule["from_to"]:
        moves = [m for m in rule[key]["move"].values()
                 if m["deprecated_dimensions"] is not None]
        for version in versions:
            try:
                s = quiet(sf.Sofa, name, version=version, verify=False)
            except ValueError:
                continue
            try:
                text = printed(s.upgrade_convention, targets[0], verify=False)
            except Exception:
                continue
            found += len(moves)
            assert text.count("are now deprecated") == len(moves), (name, text)
assert found
""")

bug("c16-default-data-stays", "C16", [
    (I, """        if attr not in all_attr:
            delattr(sofa, attr)
""", """        if attr not in all_attr and not (
                attr.endswith("_Units") and
                attr[:-6] in all_attr):
            delattr(sofa, attr)
""")],
    "a file with a variable that lacks its units",
    "The default units of the convention appear in the object.",
    """
from netCDF4 import Dataset
s = sf.Sofa("GeneralTF")
quiet(sf.write_sofa, "a.sofa", s)
with Dataset("a.sofa", "a") as f:
    f["N"].delncattr("Units")
    f["SourcePosition"].delncattr("Units")
r = quiet(sf.read_sofa, "a.sofa", verify=False)
assert not hasattr(r, "SourcePosition_Units")
assert not hasattr(r, "N_Units")
assert raises(ValueError, sf.read_sofa, "a.sofa", verify=True)
""")

bug("c15-trailing-blanks", "C15", [
    (I, """        value = np.atleast_1d(value).astype("U")
""", """        value = np.char.rstrip(np.atleast_1d(value).astype("U"))
""")],
    "strings in a variable that end with blanks",
    "The blanks are lost when reading.",
    """
s = sf.Sofa("GeneralTF")
s.add_variable("Label", [["one "], ["two"]], "string", "qS")
quiet(sf.write_sofa, "a.sofa", s)
assert list(quiet(sf.read_sofa, "a.sofa").Label.flat) == ["one ", "two"]
""")

bug("c19-missing-dimensions", "C19", [
    (S, """                while data.ndim < np.max(moveaxis) + 1:
                    data = data[..., None]""",
     """                if data.ndim < np.max(moveaxis) + 1:
                    data = data[..., None]""")],
    "data that is moved along axes, two of which are discarded singletons",
    "The upgrade fails or moves the wrong axes.",
    """
found = 0
for name in DB["upgrade"]:
    rule = DB["upgrade"][name]
    for versions, targets, key in rule["from_to"]:
        for source, m in rule[key]["move"].items():
            entry = source.replace(".", "_").replace(":", "_")
            new = m["target"].replace(".", "_").replace(":", "_")
            if m["moveaxis"] is None or np.max(m["moveaxis"]) < 2:
                continue
            for version in versions:
                try:
                    s = quiet(sf.Sofa, name, version=version, verify=False)
                except ValueError:
                    continue
                s.protected = False
                setattr(s, entry, np.array([1., 2.]))
                s.protected = True
                quiet(s.upgrade_convention, targets[0], verify=False)
                assert np.size(getattr(s, new)) == 2
                found += 1
assert found
""")

bug("c25-known-shapes", "C25", [
    (S, """        issues = self.verify(issue_handling="return")
        if issues is not None and (""",
     """        # nothing to do if the shapes did not change
        shapes = {key: np.shape(value) for key, value in self.__dict__.items()
                  if not key.startswith("_")}
        issues = None
        if not hasattr(self, "_api") or \\
                shapes != self.__dict__.get("_shapes"):
            issues = self.verify(issue_handling="return")
        self.__dict__["_shapes"] = None if issues else shapes
        if issues is not None and (""")],
    "a string is replaced by a longer one between two queries",
    "The maximum length of strings is out of date.",
    """
s = sf.Sofa("GeneralTF")
s.add_variable("Label", np.array(["ab"]), "string", "IS")
assert s.get_dimension("S") == 2
s.Label = np.array(["abcd"])
assert s.get_dimension("S") == 4
""")

bug("c21-cached-conventions", "C21", [
    (S, """            key.replace('.', '_'): value for key, value in convention.items()}

        return convention
""", """            key.replace('.', '_'): value for key, value in convention.items()}

        return sf.Sofa._loaded.setdefault(path, convention)

    # conventions that were already read
    _loaded = {}
""")],
    "custom data in one object, and adding missing data to another object of "
    "the same convention",
    "Custom data of one object becomes part of the convention for others.",
    """
a = sf.Sofa("GeneralTF")
b = sf.Sofa("GeneralTF")
a.add_variable("Temperature", 5, "double", "I")
b.delete("GLOBAL_Comment")
quiet(b.add_missing)
assert not hasattr(b, "Temperature")
assert raises(ValueError, b.add_attribute, "Temperature_Units", "kelvin")
assert not hasattr(sf.Sofa("GeneralTF"), "Temperature")
""")

bug("c10-first-letter", "C10", [
    (S, """                if unit.lower() != unit:
                    current_error""",
     """                if unit.title() == unit and unit.lower() != unit:
                    current_error""")],
    "units with capital letters at some words or in the middle of words",
    "Such units are written to files.",
    """
s = sf.Sofa("GeneralTF")
s.SourcePosition_Type = "spherical"
s.SourcePosition_Units = "degree, Degree, metre"
assert raises(ValueError, s.verify)
assert raises(ValueError, sf.write_sofa, "a.sofa", s)
assert s.verify(mode="read") is None
""")

bug("c20-blanks", "C20", [
    (U, """            if a != b:
""", """            if a.strip() != b.strip():
""")],
    "attributes that only differ in blanks at the beginning or end",
    "Different objects are equal.",
    """
a = sf.Sofa("GeneralTF")
b = a.copy()
a.GLOBAL_Comment, b.GLOBAL_Comment = "one", "one "
assert not sf.equals(a, b, verbose=False)
""")

bug("c22-canceled-deprecation", "C22", [
    (C, """                deprecate.append(convention)
            elif""", """                deprecate.append(convention)
                shutil.move(standardized_csv, os.path.join(
                    temp, f"{convention}.bak"))
            elif"""),
    (C, """            for convention in deprecate:
                os.remove(os.path.join(conventions_path, convention))
""", """            for convention in deprecate:
""")],
    "a convention became deprecated, and the download of a later convention "
    "fails or the user does not confirm",
    "The convention is removed from the local folder.",
    """
from unittest import mock
import requests
module = sys.modules["sofar.update_conventions"]
local = os.path.join(ROOT, "c")
os.mkdir(local)
TEXT = (b"Name\\tDefault\\tFlags\\tDimensions\\tType\\tComment\\n"
        b"GLOBAL:Title\\tx\\tm\\t\\tattribute\\tc\\n")


def get(url, *args, **kwargs):
    r = requests.Response()
    r.status_code, r.url, r.encoding = 200, url, "utf-8"
    if url.endswith("csv"):
        r._content = TEXT
    elif "deprecated" in url:
        r._content = b'<html><a href="A_1.0.csv">A</a></html>'
    else:
        r._content = b'<html></html>'
    return r


with open(os.path.join(local, "A_1.0.csv"), "wb") as f:
    f.write(TEXT)
with mock.patch("requests.get", get), \\
        mock.patch("builtins.input", lambda *a: "n"):
    quiet(sf.update_conventions, local)
assert os.path.isfile(os.path.join(local, "A_1.0.csv"))
with mock.patch("requests.get", get):
    quiet(sf.update_conventions, local, True)
assert not os.path.isfile(os.path.join(local, "A_1.0.csv"))
assert os.path.isfile(os.path.join(local, "deprecated", "A_1.0.csv"))
""")

bug("c09-unrestricted-dependency", "C09", [
    (S, """                    # check if dependency has the correct value
                    if ref_dep is None:
                        continue
""", """                    # check if dependency has the correct value
                    if ref_dep is None:
                        break
""")],
    "a value requires an entry of any value, and another entry that is wrong",
    "Dependencies that are listed later are not checked.",
    """
found = 0
for key, rule in DB["rules"].items():
    name = key.replace(".", "_").replace(":", "_")
    for value, items in rule.get("specific", {}).items():
        deps = [(k, v) for k, v in items.items() if k != "_dimensions"]
        free = [k for k, (_, v) in enumerate(deps) if v is None]
        for other, ref in deps[free[0]:] if free else []:
            if ref is None:
                continue
            entry = other.replace(".", "_").replace(":", "_")
            for conv in quiet(sf.utils._get_conventions, "name"):
                s = quiet(sf.Sofa, conv, verify=False)
                if not hasattr(s, name) or not hasattr(s, entry):
                    continue
                s.protected = False
                setattr(s, name, value)
                setattr(s, entry, "wrong")
                for k, _ in deps:
                    k = k.replace(".", "_").replace(":", "_")
                    if not hasattr(s, k) and "_" in k:
                        setattr(s, k, "x") if k in s._convention else None
                s.protected = True
                try:
                    text = str(s.verify(issue_handling="return"))
                except Exception:
                    continue
                if "must be given if " + name in text.replace("\\n", ""):
                    continue
                found += 1
                assert f"- {entry} is wrong" in text, (conv, name, value)
assert found
""")

bug("c28-units-of-first", "C28", [
    (S, """                    current_error += (f"- {key} is {unit} but must contain \"""",
     """                    unit = getattr(self, keys[0])
                    current_error += (f"- {key} is {unit} but must contain \""""),
    (S, """                unit = getattr(self, key)
                if unit.lower() != unit:""",
     """                unit = getattr(self, key)
                if not unit.lower() == unit:""")],
    "units with upper case letters that are not the first units of the object",
    "The report shows the units of another entry.",
    """
s = sf.Sofa("GeneralTF", verify=False)
units = [k for k in vars(s) if k.endswith("_Units")]
assert len(units) > 1
s.protected = False
setattr(s, units[-1], "HERtz")
text = s.verify(issue_handling="return")
assert f"- {units[-1]} is HERtz but must contain" in text, text
""")

bug("c28-first-shape-only", "C28", [
    (S, """                for dim in dimensions.upper().replace(" ", "").split(","):
                    dimensions_verbose.append(""",
     """                for dim in dimensions.upper().replace(" ", "").split(","):
                    if len(dim) > 1 and dim[0] == dim[-1]:
                        continue
                    dimensions_verbose.append("""),
    (S, """                # get possible dimensions in verbose form, i.e., "(M=2, C=3)""
                dimensions_verbose = []""",
     """                # get dimensions in verbose form, i.e., "(M=2, C=3)""
                dimensions_verbose = list()""")],
    "a variable with an allowed shape that starts and ends with the same "
    "dimension, such as II, and data that matches none of the shapes",
    "The report lacks one of the shapes that are allowed.",
    """
found = 0
for name in quiet(sf.utils._get_conventions, "name"):
    s = quiet(sf.Sofa, name, verify=False)
    for key, rule in s._convention.items():
        dims = rule["dimensions"]
        if rule["type"] != "double" or "," not in dims:
            continue
        value = getattr(s, key, None)
        s.protected = False
        setattr(s, key, np.ones((7, 8, 9)))
        s.protected = True
        text = s.verify(issue_handling="return")
        s.protected = False
        if value is None:
            s.delete(key)
        else:
            setattr(s, key, value)
        for line in str(text).split("\\n"):
            if line.startswith(f"- {key} has"):
                found += 1
                assert line.count("=") == len(dims.replace(", ", "")), line
assert found
""")

bug("c28-value-in-lower-case", "C28", [
    (S, """            # test if the value is valid
            if not self._verify_value(test, ref, unit_aliases, key_sofar):
                current_error += (f"- {key_sofar} is {test} \"""",
     """            # test if the value is valid
            valid = self._verify_value(test, ref, unit_aliases, key_sofar)
            if not valid:
                test = str(test).lower()
                current_error += (f"- {key_sofar} is {test} \"""")],
    "a wrong value with upper case letters",
    "The report shows a value that the entry does not have.",
    """
s = sf.Sofa("GeneralTF", verify=False)
s.ListenerPosition_Type = "Cartesian Coordinates"
text = s.verify(issue_handling="return")
assert "ListenerPosition_Type is Cartesian Coordinates but must" in text, text
""")

bug("c28-value-of-first-reference", "C28", [
    (S, """                            f"- {key_dep_sofar} is {test_dep} but must be "
                            f"{', '.join(ref_dep)} if {key_sofar} is {test}\\n")""",
     """                            f"- {key_dep_sofar} is {test_dep} but must be "
                            f"{', '.join(ref_dep[:1])} if {key_sofar} is {test}\\n")""")],
    "a value that demands that another entry has one of several values",
    "The report lacks values that are allowed.",
    """
found = 0
for key, rule in DB["rules"].items():
    name = key.replace(".", "_").replace(":", "_")
    for value, items in rule.get("specific", {}).items():
        for other, ref in items.items():
            if other == "_dimensions" or ref is None or len(ref) < 2:
                continue
            entry = other.replace(".", "_").replace(":", "_")
            for conv in quiet(sf.utils._get_conventions, "name"):
                s = quiet(sf.Sofa, conv, verify=False)
                if not hasattr(s, name) or not hasattr(s, entry):
                    continue
                s.protected = False
                setattr(s, name, value)
                setattr(s, entry, "wrong")
                s.protected = True
                try:
                    text = str(s.verify(issue_handling="return"))
                except (KeyError, ValueError):
                    continue
                for line in text.split("\\n"):
                    if line.startswith(f"- {entry} is wrong") and \\
                            f" if {name} is" in line:
                        found += 1
                        assert all(r in line for r in ref), line
assert found
""")

bug("c29-errors-swallowed", "C29", [
    (T, """        self._file.close()
""", """        return self._file.close() is None and len(args) > 0 and \\
            isinstance(args[1], (KeyError, AttributeError))
""")],
    "an AttributeError inside the with statement",
    "The error is swallowed instead of being passed on.",
    """
sf.write_sofa("a.sofa", quiet(sf.Sofa, "GeneralTF"))
try:
    with sf.SofaStream("a.sofa") as stream:
        stream.GLOBAL_Nothing
        raised = None
    raised = False
except AttributeError:
    raised = True
assert raised
""")

bug("c29-shared-files", "C29", [
    (T, """        self._file = Dataset(self._filename, mode="r")
""", """        if self._filename not in self._files or \\
                not self._files[self._filename].isopen():
            self._files[self._filename] = Dataset(self._filename, mode="r")
        self._file = self._files[self._filename]
"""),
    (T, """    def __init__(self, filename):
""", """    _files = {}

    def __init__(self, filename):
""")],
    "two streams of the same file, one is left while the other one is used",
    "The file is closed for both.",
    """
sf.write_sofa("a.sofa", quiet(sf.Sofa, "GeneralTF"))
with sf.SofaStream("a.sofa") as one:
    with sf.SofaStream("a.sofa") as two:
        assert two.GLOBAL_DataType == "TF"
    assert one.GLOBAL_DataType == "TF"
    assert one.Data_Real[:].shape == (1, 1, 1)
""")

bug("c29-kept-values", "C29", [
    (T, """            self._data = self._file.getncattr(name_netcdf)
""", """            self._data = self.__dict__[name] = \\
                self._file.getncattr(name_netcdf)
""")],
    "a stream that is entered again after its file was written",
    "The stream gives the attributes of the old file.",
    """
s = quiet(sf.Sofa, "GeneralTF")
stream = sf.SofaStream("a.sofa")
for title in ("one", "two"):
    s.GLOBAL_Title = title
    sf.write_sofa("a.sofa", s)
    with stream as f:
        assert f.GLOBAL_Title == title
        assert f.GLOBAL_DataType == "TF"
""")

bug("c30-room-for-the-file", "C30", [
    (I, """        sofa.verify(mode="write")
""", """        sofa.verify(mode="write") or filename.unlink(missing_ok=True)
""")],
    "writing that fails after verification, and a file that exists",
    "The earlier file is lost.",
    """
s = quiet(sf.Sofa, "GeneralTF")
sf.write_sofa("a.sofa", s)
s.add_attribute("GLOBAL_a/b", "x")
assert raises(Exception, sf.write_sofa, "a.sofa", s)
assert os.path.isfile("a.sofa")
quiet(sf.read_sofa, "a.sofa")
""")

bug("c30-skipped-names", "C30", [
    (I, """        keys = [key for key in all_keys if key.startswith("GLOBAL_")]
""", """        keys = [key for key in all_keys
                if key.startswith("GLOBAL_") and "/" not in key]
""")],
    "a global attribute whose name netCDF can not store",
    "The file lacks the attribute and the user is not told.",
    """
s = quiet(sf.Sofa, "GeneralTF")
s.add_attribute("GLOBAL_a/b", "x")
assert raises(Exception, sf.write_sofa, "a.sofa", s)
assert not os.path.isfile("a.sofa")
""")
