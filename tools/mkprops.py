"""Write /verif/properties.jsonl (the list is kept here because it is easier to edit)."""
import json
import os

S, IO, U, ST, UP = ("sofar/sofa.py", "sofar/io.py", "sofar/utils.py",
                    "sofar/sofastream.py", "sofar/update_conventions.py")
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s))
                      for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": None}})


prop(
    "C01", "Protected SOFA objects can not be corrupted",
    "While a SOFA object is protected, no assignment or deletion changes a read only entry, removes a mandatory entry, or introduces an entry that does not exist: such a call raises TypeError and leaves the whole object unchanged, while every permitted change still works. "
    "Which entries are read only or mandatory follows the convention of the object, also after it was read, copied, or upgraded to another convention. "
    "Creating, editing (adding custom or missing data), verifying, reading, and upgrading always hand the object back protected, and protection can only be switched by assigning a bool.",
    ["histories", "inputs"],
    "Every history of create/assign/delete/add/add_missing/verify/copy/read/upgrade/toggle-protection calls, every entry of every convention, every value.",
    "Tests try one read only and one mandatory entry right after creation. They do not cover the protection after multi-step histories or for every entry and convention.",
    [S, IO], [("__setattr__", S), ("__delattr__", S), ("protected setter", S),
              ("upgrade_convention refreshes read only data", S)],
    [("_protected", "protection flag", S),
     ("_read_only_attr", "read only entries", S)],
    ["setattr/delattr outcome", "Sofa.protected", "all data entries"])
prop(
    "C02", "New objects hold exactly the default data of the convention",
    "A new SOFA object contains exactly the entries that its convention defines (only the mandatory ones if requested), each with the default value, type and number of dimensions of the convention, except for the creation/modification dates and the application and API information that are filled in. "
    "Without a version the numerically highest version is used, with a version exactly this version, and unknown names and versions are rejected. "
    "Verification runs upon creation for conventions of version 1.0 or higher unless switched off, and preliminary versions cause a warning. list_conventions lists every convention and version exactly once.",
    ["inputs", "configurations"],
    "Every convention and version contained in the convention data base, and every combination of mandatory, version, and verify.",
    "The tests create objects but compare few of the values; which entries, defaults and versions are selected depends on the whole data base, which is empty at the pinned commit.",
    [S, U], [("Sofa.__init__", S), ("_load_convention", S),
             ("_convention_to_sofa", S), ("_get_conventions", U)],
    [("_convention", "loaded convention", S)], ["all data entries", "warnings"])
prop(
    "C03", "Custom data can be added, deleted and added again at any time",
    "Adding custom variables and attributes succeeds exactly if the name is unused and well formed (attributes need an existing variable or the GLOBAL prefix, variables contain no underscore, dot, or slash), the type is known, and variables have dimensions; otherwise it raises ValueError and leaves the object unchanged. "
    "Added data is stored with its type and dimensions (S is appended for strings that lack it), stays registered over verification, copying, writing and reading, and can be deleted, after which the same name can be added again with any other type, dimensions, and value. "
    "Re-adding deleted optional data of the convention makes it convention data and not custom data.",
    ["histories", "inputs"],
    "Every history of add_variable/add_attribute/delete/verify/write/read calls with arbitrary names, types, dimensions and values.",
    "The tests add a handful of fixed entries once; deletion followed by re-adding, and mixed histories, are not exercised.",
    [S], [("_add_entry", S), ("_add_custom_api_entry", S),
          ("__delattr__", S), ("_reset_convention", S)],
    [("_custom", "custom entries", S)],
    ["outcome of add/delete", "data entries", "verify"])
prop(
    "C04", "Adding missing data restores exactly the missing defaults",
    "add_missing adds exactly those mandatory and/or optional entries of the convention that the object lacks (as selected by its arguments), each with its default value, reports exactly these names, and never changes data that is already contained. "
    "Calling it again adds nothing.",
    ["histories", "inputs"],
    "Every object state (any subset of entries missing, custom data, changed values) and all argument combinations.",
    "Tests delete one or two entries of a single convention.",
    [S], [("add_missing", S)], (), ["data entries", "printed report"])
prop(
    "C05", "Assigned values are normalised uniformly",
    "Assigning a value to an entry stores strings, dictionaries and numpy arrays unchanged and converts everything else to a numpy array of at least two dimensions, or to a scalar if it has a single element; elements, their order, and their type never change. "
    "The value that is read back from the object is what verification, comparison, and writing use, and assigning never changes another entry.",
    ["inputs", "histories"],
    "Every assignable value: numbers, strings, nested lists and tuples of any shape, numpy arrays of any shape and type, single element data.",
    "Tests cover a few shapes; the conversion must hold for every nesting depth, size and element type.",
    [S], [("__setattr__", S)], (), ["getattr after setattr"])
prop(
    "C06", "Verification detects missing mandatory data and wrong types",
    "Verification reports every missing mandatory entry, as an error if issues are raised, and otherwise as a warning after adding it with its default value. "
    "It reports every entry whose value does not match the declared type (attributes are strings, numeric variables are integers or floats, string variables are strings or string arrays), and never reports an entry that is contained and has a matching type.",
    ["inputs", "histories"],
    "Every object: any subset of missing entries, any value type for any convention or custom entry, any issue handling.",
    "Tests use single defects in one convention; soundness and completeness range over every entry, type and combination.",
    [S], [("verify (mandatory data, data types)", S)], (),
    ["issues reported by verify"])
prop(
    "C07", "Verification enforces the naming rules",
    "Verification reports an error for every attribute whose variable is not contained, attributes without underscore, variables with underscores other than the Data prefix, names that use the reserved words PRIVATE, API, or GLOBAL, and custom data with the name of convention data. "
    "No other name is reported.",
    ["inputs", "histories"],
    "Every set of entry names reachable through adding, deleting, unprotected assignment, and reading foreign files.",
    "Tests check one example per rule.",
    [S], [("verify (names)", S)], (), ["issues reported by verify"])
prop(
    "C08", "Dimensions are inferred and all shapes are checked against them",
    "The size of each dimension is taken from the variable that defines it (C is 3, I is 1, S is the longest string), and verification accepts a variable exactly if its shape equals one of its allowed combinations of dimensions up to missing or excess trailing singleton dimensions. "
    "A variable of any other shape is reported by name, whatever the other variables contain.",
    ["inputs", "configurations"],
    "Every assignment of shapes to the variables of every convention and to custom variables, including strings and custom dimensions.",
    "Tests cover few shapes; the consistency condition ranges over all combinations of shapes.",
    [S, U], [("verify (dimensions)", S), ("_nd_newaxis", U),
             ("_atleast_nd", U), ("_get_size_and_shape_of_string_var", S)],
    [("_api", "sizes of the dimensions", S),
     ("_dimensions", "dimensions of the variables", S)],
    ["issues reported by verify", "get_dimension"])
prop(
    "C09", "Verification enforces value rules and dependencies",
    "Verification reports every entry with a value outside the values allowed by the rules (case insensitive, except for data type and convention name), every missing entry that the presence or the value of another entry requires, every dependent entry with a wrong value, and every dimension with a size that a value forbids. "
    "Objects that satisfy all rules are accepted, and values are judged in the same way whatever upper or lower case is used.",
    ["inputs", "configurations"],
    "Every combination of values of the entries that take part in rules, for every convention, including case variants and deleted dependencies.",
    "Tests iterate over the rules one by one on one object; interactions, case variants and dependencies between several rules are not covered.",
    [S], [("verify (content)", S), ("_verify_value", S)], (),
    ["issues reported by verify"])
prop(
    "C10", "All documented spellings of units are accepted, and no others",
    "A unit is accepted exactly if it consists of the required number of units in the required order, each being a known alias of the required unit, separated by commas, commas and spaces, or spaces. "
    "Upper case letters are accepted in read mode only: in write mode every unit attribute that contains an upper case letter is an error, including units of custom variables.",
    ["inputs"],
    "All alias combinations, separators, letter cases, wrong orders, wrong numbers of units, for every unit of every convention.",
    "Tests try a few unit strings.",
    [S], [("_verify_unit", S), ("verify (units in write mode)", S)], (),
    ["issues reported by verify"])
prop(
    "C11", "Deprecated and preliminary conventions are flagged by mode",
    "Verifying an object of a deprecated convention gives an error in write mode and only a warning in read mode, so that such data can be read but not written. "
    "Conventions of a version below 1.0 cause a warning in both modes, also for deprecated conventions, and all other conventions cause neither.",
    ["configurations", "histories"],
    "Every convention of the data base, both modes, every issue handling, also after upgrading.",
    "Tests cover one deprecated and one preliminary convention.",
    [S], [("verify (deprecations)", S)], (), ["issues reported by verify"])
prop(
    "C12", "Issue handling never changes the verdict",
    "Raising, printing and returning issues report the same errors and warnings for the same object (apart from missing mandatory data, which is added unless issues are raised), None is returned and nothing raised or printed if there are no issues, and ignoring issues is silent. "
    "Verifying changes no data entry other than adding missing mandatory data, and verifying twice gives the same result.",
    ["inputs", "histories"],
    "Every valid and invalid object, every issue handling and mode, repeated verification.",
    "Tests compare handling modes for very few objects.",
    [S], [("verify", S), ("_verify_handle_issues", S)], (),
    ["exceptions, warnings, output and return value of verify"])
prop(
    "C13", "Only valid objects reach the disk, failed writes change nothing",
    "write_sofa raises and neither creates nor modifies any file if the object does not pass verification in write mode, and it succeeds for every object that passes and whose names can be stored. "
    "Writing never changes the object, writes exactly the given file (appending .sofa if the name does not end with it), replaces earlier content of this file completely, and leaves all other files alone.",
    ["inputs", "histories", "fault_sequences"],
    "Every valid and invalid object, existing or new target, file names with and without suffix and with dots, any sequence of writes.",
    "Tests write a few valid files; invalid objects with an existing target and overwrite histories are not tested.",
    [IO, S], [("_write_sofa", IO), ("verify(mode='write')", S)], (),
    ["directory content before and after", "outcome of write_sofa"])
prop(
    "C14", "Written files follow the SOFA file layout",
    "A written file contains exactly the global attributes, variables, variable attributes and dimensions of the object under their SOFA names, with every variable stored as double or character data of the dimensions that verification detected and with the sizes of the object. "
    "All values and strings are stored completely and in order, for every compression level.",
    ["inputs", "configurations"],
    "Every valid object: all conventions, shapes, string lengths, custom data, compression levels.",
    "Tests read the files only with sofar itself, so that errors of writing and reading can cancel.",
    [IO], [("_write_sofa", IO), ("_format_value_for_netcdf", IO)], (),
    ["file content as seen by netCDF4"])
prop(
    "C15", "Writing and reading returns the same data",
    "Reading a file that was written from an object returns an object with the same entries, values, and (up to singleton dimensions) shapes, the same convention and custom entries with their types and dimensions, which is valid again and equal to the original. "
    "Writing and reading it again changes nothing more.",
    ["inputs", "histories"],
    "Every valid object of every convention with arbitrary data, custom data, missing optional data and string variables; repeated round trips.",
    "Tests do the round trip for default data only.",
    [IO, S], [("_write_sofa", IO), ("_read_netcdf", IO),
              ("_format_value_from_netcdf", IO)], (),
    ["object before writing and after reading"])
prop(
    "C16", "Reading returns exactly what the file contains",
    "read_sofa returns an object with exactly the attributes and variables of the file: nothing that the file lacks is added from the convention, nothing is dropped, and values are unchanged; data unknown to the convention becomes custom data with the dimensions and type of the file. "
    "Files of unknown conventions or versions, missing files, and (if verification is on, which is the default for versions of 1.0 and above) files that violate the convention in read mode are rejected with ValueError, all others are read.",
    ["inputs", "configurations"],
    "Every file: any subset of mandatory/optional/custom attributes and variables, numeric types, string variables, shapes, conventions and versions, verify on/off/auto.",
    "Tests read files that sofar wrote; files from other sources are not covered.",
    [IO], [("_read_netcdf", IO), ("_verify_convention_and_version", U)], (),
    ["object returned by read_sofa", "exceptions"])
prop(
    "C17", "Corrupted files can be read as netCDF, repaired and written",
    "read_sofa_as_netcdf returns an object with exactly the attributes and variables of any file with numeric and character data, whatever convention (existing or not) it claims and however it violates the convention. "
    "The data can be inspected, changed, and completed, and once it agrees with a convention the object verifies and is written and read like any other SOFA object.",
    ["inputs", "histories"],
    "Every file as above including invalid conventions and versions, followed by histories of repairs.",
    "The tests read one file with a wrong convention.",
    [IO, S], [("_read_netcdf(mode='netcdf')", IO), ("_reset_convention", S)],
    (), ["object returned", "verify and write after repair"])
prop(
    "C18", "SofaStream returns what read_sofa returns",
    "For every entry of a file, accessing its sofar name on an open SofaStream returns the same value as the object returned by read_sofa (the variable, or the attribute value); names that the file does not contain raise AttributeError. "
    "Sizes of dimensions agree with the file and unknown dimensions raise ValueError.",
    ["inputs"],
    "Every file and every name, including custom data, attributes of Data variables, variables and global attributes of the same name, and absent names.",
    "Tests access four entries of one file.",
    [ST], [("__getattr__", ST), ("get_dimension", ST)], (),
    ["values returned by the stream"])
prop(
    "C19", "Upgrading converts the data and loses nothing",
    "Upgrading lists exactly the targets that the rules provide for the convention and version and changes nothing as long as no valid target is given. "
    "With a valid target the object belongs to the target convention and version, data are moved, reordered, and removed exactly as the rules state (whether or not optional data is contained), missing mandatory data is added with its default, and all other data including custom data is unchanged. "
    "Conventions that are up to date are never changed.",
    ["inputs", "histories", "configurations"],
    "Every deprecated convention, version and target, with arbitrary valid data, deleted optional data and custom data.",
    "Tests upgrade the default data of each convention to one target.",
    [S], [("upgrade_convention", S)], (),
    ["returned targets", "data entries after the upgrade"])
prop(
    "C20", "Comparing objects detects every difference and nothing else",
    "equals returns True exactly if both objects have the same entries with the same type and equal values (numbers up to a relative difference of 1e-7, shapes up to singleton dimensions), after leaving out the global attributes, all attributes, or the dates if requested. "
    "It is symmetric, never raises for valid objects, never changes the objects, and warns if and only if there is a difference and verbose is set.",
    ["inputs"],
    "All pairs of objects: values, shapes, types, missing and custom entries that differ in any single place or not at all; all exclude options.",
    "Tests compare eight pairs of values.",
    [U], [("equals", U)], (), ["return value and warnings"])
prop(
    "C21", "Objects are independent of each other",
    "A copy is equal to its original including custom data and protection, and no later operation on one object (assigning, in-place changes of arrays, adding, deleting, verifying, upgrading, writing) changes any other object, copied, created from the same convention, or read from the same file. "
    "Operations on objects never change the convention data base.",
    ["histories"],
    "Every history of operations on several objects that originate from each other or from the same convention.",
    "Tests do not use several objects at a time.",
    [S, IO], [("copy", S), ("_load_convention", S)], (),
    ["data of all other objects after every operation"])
prop(
    "C22", "Updating conventions mirrors the official conventions or does nothing",
    "After a confirmed update the local folders hold, for every official convention, the official content in the right folder (standardized or deprecated) with the compiled json file beside it, conventions that became deprecated have moved, and local conventions that are not listed stay untouched. "
    "Nothing at all changes if the user does not confirm, if everything is up to date, or if a download fails, and a second update finds nothing to do; no temporary files remain. "
    "General and GeneralString conventions are never downloaded, and line endings and trailing tabs do not count as changes.",
    ["histories", "fault_sequences", "configurations"],
    "Every combination of local status, remote status, content, line endings, user answer, and failing download.",
    "Tests need the network and only cover an update without and with changes in three fixed cases.",
    [UP], [("update_conventions", UP), ("_compile_conventions", UP)], (),
    ["content of the folders before and after", "downloads"])
prop(
    "C23", "Compiled conventions say the same as their source",
    "Compiling a convention gives one entry per row with its default, flags, dimensions, type and comment, where empty cells, numbers, arrays with spaces or commas, multi-dimensional arrays, version numbers, and empty strings keep their meaning, and global entries come first and data entries last. "
    "Objects created from the compiled convention have these defaults.",
    ["inputs"],
    "Every table of rows in the format of the official conventions, with all kinds of cells, missing comments, and line endings.",
    "Tests compile the official files, which are not available at the pinned commit.",
    [UP, S], [("_convention_csv2dict", UP), ("_compile_conventions", UP)], (),
    ["compiled json", "created objects"])
prop(
    "C24", "Inspect and info show the data and convention as they are",
    "inspect lists every entry of an object or file with its value or, for larger data, with its dimensions and their sizes, and writes the same text to a file if requested; info lists exactly the entries that the filter selects with their type, dimensions, flags, default and comment as given in the convention and rejects unknown names. "
    "The representation of an object names its convention and version. Neither changes the object.",
    ["inputs"],
    "Every valid object, custom data, all filters, and streams of all written files.",
    "Tests look for few lines in the output of default objects.",
    [S, ST], [("inspect", S), ("info", S), ("SofaStream.inspect", ST)], (),
    ["printed output and files"])
prop(
    "C25", "Reported dimensions always match the current data",
    "get_dimension and list_dimensions report the sizes of all dimensions for the data that the object currently contains, also directly after any change; unknown dimensions raise ValueError, and ValueError is raised if the sizes can not be determined because of data of wrong type or shape. The listing describes each dimension in the words that apply to the convention and data type. "
    "They report the same sizes that are stored in a written file.",
    ["histories", "inputs"],
    "Every history of changes followed by queries, every dimension including custom dimensions, valid and invalid objects.",
    "Tests query default objects and few changes.",
    [S], [("get_dimension", S), ("list_dimensions", S),
          ("_update_dimensions", S)], (), ["returned and printed sizes"])
prop(
    "C26", "Checking the congruency reports exactly the conventions that diverge",
    "Comparing the two platforms that publish the conventions reports exactly those listed conventions that one platform lacks or whose contents differ in more than line endings and trailing tabs, each once, and prints nothing if there are none. "
    "The conventions General and GeneralString are ignored. If a folder is given, it holds exactly both versions of each diverging convention afterwards, and a missing folder or failed download raises an error.",
    ["inputs", "fault_sequences"],
    "Every pair of platforms with any conventions in any order, every branch, and a failure at any download.",
    "The tests need a network connection and only look at the platforms as they are.",
    [UP], [("_check_congruency", UP)], (),
    ["printed report, saved files, raised errors"])
prop(
    "C27", "The user is told exactly what applies",
    "Adding custom data warns exactly if it has a dimension other than E, R, M, N, C, I, and S. Reading a file lists exactly those entries that its convention does not contain, prints nothing if verbose is off, and warns about each variable with missing data. Writing warns exactly if a newer version of the convention exists. "
    "Upgrading reports that the data is up to date, that rules are missing, or that the target is invalid together with all valid targets, and otherwise exactly the data that it moves, deletes, and adds, and the message of the rules. add_missing lists exactly what it adds, equals tells about a difference exactly if there is one, and neither tells anything if verbose is off. "
    "Assigning, deleting, copying, changing the protection, and asking for a dimension neither print nor warn.",
    ["inputs", "histories", "configurations"],
    "Every convention, file, object and history; every name, dimension, target and verbosity.",
    "Tests look for few warnings in fixed cases, and hardly ever that a notice is absent.",
    [S, IO, U], [("_add_entry", S), ("_read_netcdf", IO), ("_write_sofa", IO),
             ("upgrade_convention", S), ("add_missing", S), ("equals", U)],
    (), ["printed text, warnings"])

prop(
    "C28", "Reports of verification say what is wrong and what is allowed",
    "Each issue that verification finds is reported with the entry concerned and what the user needs to solve it: variables of wrong shape with their actual shape and the current sizes of the dimensions of each shape that is allowed, wrong values with the value and all values that are allowed, and missing or wrong data that another entry demands with that entry and its value. "
    "Wrong sizes of dimensions are reported with the actual and the allowed size, deprecated and preliminary conventions with the convention that replaces them and the version. It does not matter whether the report is raised, printed, or returned.",
    ["inputs", "histories"],
    "Every convention, every rule, and every invalid object with any number of issues at once.",
    "Tests match few words of few messages of objects with a single issue.",
    [S], [("verify", S), ("_verify_handle_issues", S)], (),
    ["returned, printed, and raised reports"])

prop(
    "C29", "Streams are independent of each other and only give data while open",
    "Any number of streams can be open at the same time, also on the same file, and each gives the data, dimensions, and listing of its own file whatever is done with the others and in between. "
    "A stream gives data only inside its with statement: before and after it, or if the file could not be opened, accessing it raises an error and never gives data of any file. The file is closed however the statement is left, errors raised inside it are passed on, and the stream can be entered again, giving the data that the file contains by then.",
    ["histories", "fault_sequences"],
    "Every sequence of creating, entering, using, leaving (also by an error), and entering streams again, with files that are written and removed in between.",
    "Tests open a single stream once on an unchanged file.",
    [ST], [("__enter__", ST), ("__exit__", ST), ("__getattr__", ST)], (),
    ["values and errors of streams", "open files of the process"])

prop(
    "C30", "Writing is all or nothing, even if it fails or is interrupted",
    "Whenever write_sofa raises an error, e.g., because there is no space left, the level of compression is not between 0 and 9, or netCDF can not store a name, an existing file keeps its earlier content, a file that did not exist is not created, and no other file or folder remains. "
    "If the process is killed at any point of writing, the file has either its complete earlier content (or does not exist) or its complete new content, and it is always complete after write_sofa returned. The object can be written again afterwards.",
    ["crash_points", "fault_sequences", "histories"],
    "Every object, every point at which writing can fail or end, new and existing files, and any sequence of writes that succeed, fail, or are interrupted.",
    "Tests neither let writing fail after the file was opened nor interrupt it.",
    [IO], [("_write_sofa", IO), ("write_sofa", IO)], (),
    ["content of the folder after writing failed or was interrupted"])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
    with open(path, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
