"""Source of the SOFA convention data base that the checks use.

The pinned commit of pyfar/sofar ships an *empty* ``sofar/sofa_conventions``
submodule.  Conventions and rules are input data of the library, so the checks
bring their own.  This file describes them as plain rows; ``dbgen.py`` writes
them as csv/json files without using any code of the library under test.

row = (name, default, flags, dimensions, type); a default that is a tuple is
stored as it is, otherwise single rows are flattened as in the csv files
"""


def _globals(name, version, data_type, sofa, room="free field", extra=()):
    a = "attribute"
    rows = [
        ("GLOBAL:Conventions", "SOFA", "rm", None, a),
        ("GLOBAL:Version", sofa, "rm", None, a),
        ("GLOBAL:SOFAConventions", name, "rm", None, a),
        ("GLOBAL:SOFAConventionsVersion", version, "rm", None, a),
        ("GLOBAL:APIName", "", "rm", None, a),
        ("GLOBAL:APIVersion", "", "rm", None, a),
        ("GLOBAL:ApplicationName", "", None, None, a),
        ("GLOBAL:ApplicationVersion", "", None, None, a),
        ("GLOBAL:AuthorContact", "", "m", None, a),
        ("GLOBAL:Comment", "", None, None, a),
        ("GLOBAL:DataType", data_type, "rm", None, a),
        ("GLOBAL:History", "", None, None, a),
        ("GLOBAL:License",
         "No license provided, ask the author for permission", "m", None, a),
        ("GLOBAL:Organization", "", "m", None, a),
        ("GLOBAL:References", "", None, None, a),
        ("GLOBAL:RoomType", room, "m", None, a),
        ("GLOBAL:Origin", "", None, None, a),
        ("GLOBAL:DateCreated", "", "m", None, a),
        ("GLOBAL:DateModified", "", "m", None, a),
        ("GLOBAL:Title", "", "m", None, a),
    ]
    rows += [(f"GLOBAL:{e}", "", "m", None, a) for e in extra]
    return rows


def _pos(name, default, dims, ctype="cartesian", flags="m", view=None,
         up=None):
    """Position with Type and Units, and optional view and up vectors."""
    unit = "metre" if ctype == "cartesian" else "degree, degree, metre"
    rows = [
        (f"{name}Position", default, flags, dims, "double"),
        (f"{name}Position:Type", ctype, flags, None, "attribute"),
        (f"{name}Position:Units", unit, flags, None, "attribute")]
    if view is not None:
        vdims = dims.upper() if "I" in dims else dims
        rows += [
            (f"{name}View", [[1, 0, 0]], view, vdims, "double"),
            (f"{name}View:Type", "cartesian", view, None, "attribute"),
            (f"{name}View:Units", "metre", view, None, "attribute")]
    if up is not None:
        vdims = dims.upper() if "I" in dims else dims
        rows += [(f"{name}Up", [[0, 0, 1]], up, vdims, "double")]
    return rows


HRTF_EARS = [[0, 0.09, 0], [0, -0.09, 0]]


def _geometry(receivers=None, source="cartesian", view="m", rdims="rCI, rCM",
              edims="eCI, eCM"):
    receivers = [[0, 0, 0]] if receivers is None else receivers
    return (
        _pos("Listener", [[0, 0, 0]], "IC, MC", view=view, up=view)
        + _pos("Receiver", receivers, rdims)
        + _pos("Source", [[0, 0, 1]], "IC, MC", source)
        + _pos("Emitter", [[0, 0, 0]], edims))


def _fir(ir, delay=None, dims="mRn", ddims="IR, MR"):
    return [
        ("Data.IR", ir, "m", dims, "double"),
        ("Data.SamplingRate", 48000, "m", "I, M", "double"),
        ("Data.SamplingRate:Units", "hertz", "m", None, "attribute"),
        ("Data.Delay", delay, "m", ddims, "double")]


def _tf(data, dims="mRn"):
    return [
        ("N", [0], "m", "N", "double"),
        ("N:LongName", "frequency", None, None, "attribute"),
        ("N:Units", "hertz", "m", None, "attribute"),
        ("Data.Real", data, "m", dims, "double"),
        ("Data.Imag", data, "m", dims.upper(), "double")]


def _sos(data, delay):
    return [
        ("Data.SOS", data, "m", "mRn", "double"),
        ("Data.SamplingRate", 48000, "m", "I", "double"),
        ("Data.SamplingRate:Units", "hertz", "m", None, "attribute"),
        ("Data.Delay", delay, "m", "IR, MR", "double")]


def _room():
    a = "attribute"
    return [
        ("GLOBAL:RoomShortName", "", None, None, a),
        ("GLOBAL:RoomDescription", "", "m", None, a),
        ("RoomTemperature", 273, None, "I, M", "double"),
        ("RoomTemperature:Units", "kelvin", None, None, a),
        ("RoomVolume", 0, None, "I, M", "double"),
        ("RoomVolume:Units", "cubic metre", None, None, a),
        ("RoomCornerA", [[0, 0, 0]], None, "IC, MC", "double"),
        ("RoomCornerB", [[1, 1, 1]], None, "IC, MC", "double"),
        ("RoomCorners", 0, None, "I", "double"),
        ("RoomCorners:Type", "cartesian", None, None, a),
        ("RoomCorners:Units", "metre", None, None, a)]


SOS2 = [[[0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 0, 0]]]
SOS1 = [[[0, 0, 0, 1, 0, 0]]]


def standardized():
    """{file stem: rows} of the current conventions."""
    db = {}

    def add(name, version, data_type, rows, sofa="2.1", room="free field",
            extra=()):
        db[f"{name}_{version}"] = _globals(
            name, version, data_type, sofa, room, extra) + rows

    add("GeneralTF", "1.0", "TF", _geometry(view=None) + _tf([[0]]),
        sofa="1.0", room="free field")
    add("GeneralTF", "2.0", "TF", _geometry(view=None) + _tf([[0]]))
    add("GeneralFIR", "1.0", "FIR",
        _geometry(view=None) + _fir([[0]], [[0]]))
    add("GeneralFIR-E", "2.0", "FIR-E",
        _geometry(view=None)
        + _fir([[[[0]]]], [[[0]]], "mRne", "IRI, MRI, MRE"))
    add("GeneralSOS", "1.0", "SOS", _geometry(view=None) + _sos(SOS1, [[0]]))
    add("SimpleFreeFieldHRIR", "1.0", "FIR",
        _geometry(HRTF_EARS, "spherical") + _fir([[0, 0]], [[0, 0]]),
        extra=("DatabaseName", "ListenerShortName"))
    add("FreeFieldHRIR", "1.0", "FIR",
        _geometry(HRTF_EARS, "spherical") + _fir([[0, 0]], [[0, 0]]),
        extra=("DatabaseName", "ListenerShortName"))
    add("SimpleFreeFieldHRTF", "1.0", "TF",
        _geometry(HRTF_EARS, "spherical") + _tf([[0, 0]]),
        extra=("DatabaseName", "ListenerShortName"))
    add("FreeFieldHRTF", "1.0", "TF-E",
        _geometry(HRTF_EARS, "spherical")
        + [("N", [0], "m", "N", "double"),
           ("N:LongName", "frequency", None, None, "attribute"),
           ("N:Units", "hertz", "m", None, "attribute"),
           ("Data.Real", [0, 0], "m", "mRne", "double"),
           ("Data.Imag", [0, 0], "m", "MRNE", "double")],
        extra=("DatabaseName", "ListenerShortName"))
    add("SimpleFreeFieldHRSOS", "1.0", "SOS",
        _geometry(HRTF_EARS, "spherical") + _sos(SOS2, [[0, 0]]),
        extra=("DatabaseName", "ListenerShortName"))
    add("SimpleHeadphoneIR", "1.0", "FIR",
        _geometry(HRTF_EARS, "spherical", view=None)
        + _fir([[0, 0]], [[0, 0]])
        + [("SourceManufacturer", [""], None, "IS, MS", "string"),
           ("SourceModel", [""], None, "IS, MS", "string"),
           ("SourceURI", [""], None, "IS, MS", "string"),
           ("ReceiverDescriptions", [""], None, "IS, MS", "string"),
           ("EmitterDescriptions", [""], None, "IS, MS", "string"),
           ("MeasurementDate", 0, None, "I, M", "double")],
        extra=("DatabaseName", "ListenerShortName"))
    for name in ("SingleRoomSRIR", "SingleRoomMIMOSRIR"):
        mimo = "MIMO" in name
        add(name, "1.0", "FIR-E" if mimo else "FIR",
            _pos("Listener", [[0, 0, 0]], "IC, MC", view="m", up="m")
            + _pos("Receiver", [[0, 0, 0]], "rCI, rCM", view="m", up="m")
            + _pos("Source", [[0, 0, 1]], "IC, MC", view="m", up="m")
            + _pos("Emitter", [[0, 0, 0]], "eCI, eCM", view=None)
            + (_fir([[[[0]]]], [[[0]]], "mRne", "IRI, MRI, MRE") if mimo
               else _fir([[0]], [[0]]))
            + [("MeasurementDate", 0, None, "I, M", "double")] + _room(),
            room="reverberant",
            extra=("DatabaseName",))
    for version in ("1.1",):
        add("FreeFieldDirectivityTF", version, "TF",
            _geometry(None, "spherical", rdims="IC, RCI, RCM")
            + _tf([[0]], "mrn")
            + [("GLOBAL:Musician", "", None, None, "attribute"),
               ("GLOBAL:EmitterDescription", "", None, None, "attribute"),
               ("EmitterDescriptions", [""], None, "IS, MS, ES, MES",
                "string"),
               ("MIDINote", 0, None, "I, M", "double"),
               ("SourceTuningFrequency", 440, None, "I, M", "double"),
               ("SourceTuningFrequency:Units", "hertz", None, None,
                "attribute")],
            extra=("DatabaseName",))
    # made up conventions: versions that sort differently as text, names that
    # start with the name of another convention, and all kinds of entries
    for version in ("2.0", "9.0", "10.0"):
        add("VersionTest", version, "FIR", _geometry(view=None)
            + _fir([[0]], [[0]])
            + [("GLOBAL:Info", version + " x", None, None, "attribute")])
    add("VersionTestB", "11.0", "FIR", _geometry(view=None)
        + _fir([[0]], [[0]]))
    add("PrelimTest", "0.9", "FIR", _geometry(view=None)
        + _fir([[0]], [[0]]), extra=("DatabaseName",))
    a = "attribute"
    add("Kitchen", "1.0", "FIR",
        _geometry(HRTF_EARS, "spherical", view=None)
        + _fir([[0, 0]], [[0, 0]])
        + [("GLOBAL:Optional", "some text", None, None, a),
           ("KScalar", 3, None, "I", "double"),
           ("KScalar:Units", "metre", None, None, a),
           ("KFloat", 0.25, "m", "I, M", "double"),
           ("KFloat:Units", "second", "rm", None, a),
           ("KRead", 5, "r", "I", "double"),
           ("KRead:Units", "metre", "r", None, a),
           ("KVector", [1, 2, 3, 4], None, "q", "double"),
           ("KMatrix", [[1, 2, 3], [4, 5, 6]], None, "wC", "double"),
           ("KCube", [[7, 8]], "m", "IRN, MRN", "double"),
           ("KFour", [0.5], None, "IIIN, MIIN", "double"),
           ("KText", "text", None, "IS, MS", "string"),
           ("KTexts", [["abc"], ["de"], ["f"], [""]], "m", "QS", "string"),
           ("KGrid", [""], None, "MRS, IIS, IRS", "string"),
           ("Data.Extra", [1], None, "IN, MN", "double"),
           ("Data.Extra:Units", "hertz", None, None, a)])
    return db


def deprecated():
    """{file stem: rows} of the deprecated conventions."""
    db = {}

    def add(name, version, data_type, rows, sofa="1.0", room="free field",
            extra=()):
        db[f"{name}_{version}"] = _globals(
            name, version, data_type, sofa, room, extra) + rows

    add("SimpleFreeFieldHRIR", "0.4", "FIR",
        _geometry(HRTF_EARS, "spherical") + _fir([[0, 0]], [[0, 0]]),
        sofa="0.6", extra=("DatabaseName", "ListenerShortName"))
    for version in ("0.4", "1.0"):
        add("SimpleFreeFieldTF", version, "TF",
            _geometry(HRTF_EARS, "spherical") + _tf([[0, 0]]),
            extra=("DatabaseName", "ListenerShortName"))
    add("MultiSpeakerBRIR", "0.3", "FIRE",
        _pos("Listener", [[0, 0, 0]], "IC, MC", view="m", up="m")
        + _pos("Receiver", [[0, 0, 0]], "rCI, rCM", view="m", up="m")
        + _pos("Source", [[0, 0, 1]], "IC, MC", view="m", up="m")
        + _pos("Emitter", [[0, 0, 0]], "eCI, eCM", view=None)
        + _fir([[[[0]]]], [[[0]]], "mREn", "IRI, MRI, MRE")
        + [("GLOBAL:RoomDescription", "", "m", None, "attribute")],
        room="reverberant", extra=("DatabaseName",))
    for version in ("0.2", "0.3"):
        add("SingleRoomDRIR", version, "FIR",
            _geometry(None) + _fir([[0]], [[0]])
            + [("GLOBAL:RoomDescription", "", "m", None, "attribute"),
               ("GLOBAL:RoomLocation", "", None, None, "attribute")],
            sofa="0.6", room="reverberant", extra=("DatabaseName",))
    for version in ("0.1", "0.2"):
        add("SingleTrackedAudio", version, "FIR",
            _geometry(None) + _fir([[0]], [[0]])
            + [("TrackerDelay", 0, None, "I, M", "double"),
               ("TrackerDelay:Units", "second", None, None, "attribute"),
               ("TrackerStates", [""], None, "IS, MS", "string")],
            sofa="0.6")
    add("FreeFieldDirectivityTF", "1.0", "TF",
        _geometry(None, "spherical", rdims="IC, RCI, RCM")
        + _tf([[0]], "mrn")
        + [("GLOBAL:Musician", "", None, None, "attribute"),
           ("EmitterMidPoint", [[0, 0, 0]], None, "IC, MC", "double"),
           ("MIDINote", 0, None, "I, M", "double")],
        extra=("DatabaseName",))
    add("GeneralFIRE", "1.0", "FIRE",
        _geometry(view=None)
        + _fir([[[[0]]]], [[[0]]], "mREn", "IRI, MRI, MRE"))
    # deprecated without a rule for upgrading, and with rules only for
    # another version
    add("SimpleHeadphoneTF", "0.1", "TF",
        _geometry(HRTF_EARS, "spherical", view=None) + _tf([[0, 0]]),
        sofa="0.6")
    add("OldKitchen", "0.5", "FIR", _geometry(HRTF_EARS, view=None)
        + _fir([[0, 0]], [[0, 0]])
        + [("KGain", 2, None, "I, M", "double"),
           ("KGain:Units", "second", None, None, "attribute"),
           ("KOld", ([[1, 2]],), None, "INR, MNR", "double"),
           ("KList", [["abc"], ["de"], ["f"], [""]], None, "QS", "string"),
           ("KJunk", 1, None, "I", "double"),
           ("Data.Junk", [1], None, "IN, MN", "double"),
           ("KCount", [1, 2, 3, 4], None, "q", "double")],
        sofa="0.6")
    add("OldKitchen", "0.6", "FIR", _geometry(HRTF_EARS, view=None)
        + _fir([[0, 0]], [[0, 0]]), sofa="0.6")
    # preliminary targets
    for version in ("0.7", "0.8"):
        add("OldPrelim", version, "FIR", _geometry(view=None)
            + _fir([[0]], [[0]]), extra=("DatabaseName",))
    return db


UNIT_ALIASES = {
    **{u: "metre" for u in ("metre", "metres", "meter", "meters")},
    **{u: "degree" for u in ("degree", "degrees")},
    **{u: "cubic metre" for u in ("cubic metre", "cubic metres",
                                  "cubic meter", "cubic meters")},
    **{u: "second" for u in ("second", "seconds", "s")},
    "hertz": "hertz", "kelvin": "kelvin", "samples": "samples"}

DEPRECATIONS = {"GLOBAL:SOFAConventions": {
    "SimpleFreeFieldTF": "SimpleFreeFieldHRTF",
    "MultiSpeakerBRIR": "SingleRoomMIMOSRIR",
    "SingleRoomDRIR": "SingleRoomSRIR",
    "SingleTrackedAudio": "SingleRoomSRIR",
    "GeneralFIRE": "GeneralFIR-E",
    "SimpleHeadphoneTF": "SimpleHeadphoneIR",
    "OldKitchen": "Kitchen"}}


def upgrade_rules():
    """Rules for upgrading, in the format of the sofa_conventions project."""
    def rule(move=None, remove=(), message=None):
        return {"move": move or {}, "remove": list(remove),
                "message": message}

    def mv(target, moveaxis=None, deprecated=None):
        return {"target": target, "moveaxis": moveaxis,
                "deprecated_dimensions": deprecated}

    return {
        "SimpleFreeFieldHRIR": {
            "from_to": [[["0.4"], ["SimpleFreeFieldHRIR_1.0",
                                   "FreeFieldHRIR_1.0"], "upgrade_1"]],
            "upgrade_1": rule(message=(
                "Consider to add the optional data 'SourceUp'"))},
        "SimpleFreeFieldTF": {
            "from_to": [[["0.4", "1.0"], ["SimpleFreeFieldHRTF_1.0"],
                         "upgrade_1"]],
            "upgrade_1": rule()},
        "MultiSpeakerBRIR": {
            "from_to": [[["0.3"], ["SingleRoomMIMOSRIR_1.0"], "upgrade_1"]],
            "upgrade_1": rule(
                {"Data.IR": mv("Data.IR", [2, 3])})},
        "SingleRoomDRIR": {
            "from_to": [[["0.2"], ["SingleRoomSRIR_1.0"], "upgrade_1"],
                        [["0.3"], ["SingleRoomSRIR_1.0"], "upgrade_2"]],
            "upgrade_1": rule(
                {"GLOBAL:RoomLocation": mv("GLOBAL:RoomShortName")}),
            "upgrade_2": rule(remove=["GLOBAL:RoomLocation"])},
        "SingleTrackedAudio": {
            "from_to": [[["0.1", "0.2"], ["SingleRoomSRIR_1.0",
                                          "SimpleFreeFieldHRIR_1.0"],
                         "upgrade_1"]],
            "upgrade_1": rule(
                remove=["TrackerDelay", "TrackerDelay:Units",
                        "TrackerStates"])},
        "FreeFieldDirectivityTF": {
            "from_to": [[["1.0"], ["FreeFieldDirectivityTF_1.1"],
                         "upgrade_1"]],
            "upgrade_1": rule(
                {"EmitterMidPoint": mv("EmitterPosition", [0, 1],
                                       ["I", "M"])},
                message="Consider to add 'GLOBAL_EmitterDescription'")},
        "OldKitchen": {
            "from_to": [[["0.5"], ["Kitchen_1.0"], "upgrade_1"]],
            "upgrade_1": rule(
                {"KGain": mv("KFloat"), "KGain:Units": mv("KScalar:Units"),
                 "KOld": mv("KCube", [1, 2], ["I"]),
                 "KList": mv("KTexts"), "KCount": mv("KVector")},
                remove=["KJunk", "Data.Junk", "GLOBAL:Comment"],
                message="Check the data")},
        "OldPrelim": {
            "from_to": [[["0.7"], ["PrelimTest_0.9", "VersionTest_10.0",
                                   "VersionTest_2.0"], "upgrade_1"],
                        [["0.8"], ["PrelimTest_0.9"], "upgrade_2"]],
            "upgrade_1": rule(remove=["GLOBAL:DatabaseName",
                                      "GLOBAL:History"]),
            "upgrade_2": rule({"GLOBAL:History": mv("GLOBAL:Comment")})},
        "GeneralFIRE": {
            "from_to": [[["1.0"], ["GeneralFIR-E_2.0"], "upgrade_1"]],
            "upgrade_1": rule({"Data.IR": mv("Data.IR", [2, 3])})}}


def _squares(n=40):
    return [i ** 2 for i in range(1, n)]


def rules(conventions):
    """Verification rules in the format of the sofa_conventions project."""
    units = {"cartesian": "metre", "spherical": "degree, degree, metre"}
    out = {
        "GLOBAL:Conventions": {"value": ["SOFA"]},
        "GLOBAL:Version": {"value": ["0.6", "1.0", "2.0", "2.1"]},
        "GLOBAL:DataType": {
            "value": ["FIR", "FIR-E", "FIRE", "TF", "TF-E", "SOS"],
            "specific": {
                "FIR": {"Data.IR": None, "Data.Delay": None,
                        "Data.SamplingRate": None,
                        "Data.SamplingRate:Units": ["hertz"]},
                "FIR-E": {"Data.IR": None, "Data.Delay": None,
                          "Data.SamplingRate": None,
                          "Data.SamplingRate:Units": ["hertz"]},
                "FIRE": {"Data.IR": None, "Data.SamplingRate": None,
                         "Data.SamplingRate:Units": ["hertz"]},
                "TF": {"N": None, "N:Units": ["hertz"], "Data.Real": None,
                       "Data.Imag": None},
                "TF-E": {"N": None, "N:Units": ["hertz"], "Data.Real": None,
                         "Data.Imag": None},
                "SOS": {"Data.SOS": None, "Data.Delay": None,
                        "Data.SamplingRate": None,
                        "Data.SamplingRate:Units": ["hertz"],
                        "_dimensions": {"N": {
                            "value": [6 * i for i in range(1, 20)],
                            "value_str": ("an integer multiple of 6 "
                                          "greater 0")}}}}},
        "GLOBAL:RoomType": {
            "value": ["free field", "reverberant", "shoebox", "dae"],
            "specific": {
                "reverberant": {"GLOBAL:RoomDescription": None},
                "shoebox": {"RoomCornerA": None, "RoomCornerB": None},
                "dae": {"GLOBAL:RoomGeometry": None}}}}
    for obj in ("Listener", "Receiver", "Source", "Emitter"):
        harmonic = obj in ("Receiver", "Emitter")
        values = ["cartesian", "spherical"]
        specific = {k: {f"{obj}Position:Units": [v]}
                    for k, v in units.items()}
        if harmonic:
            values = values + ["spherical harmonics"]
            specific["spherical harmonics"] = {
                f"{obj}Position:Units": ["degree, degree, metre"],
                "_dimensions": {obj[0]: {
                    "value": _squares(),
                    "value_str": "(N+1)^2 where N is the order"}}}
        out[f"{obj}Position:Type"] = {
            "value": values, "general": [f"{obj}Position"],
            "specific": specific}
        out[f"{obj}View"] = {
            "value": None,
            "general": [f"{obj}View:Type", f"{obj}View:Units"]}
        out[f"{obj}View:Type"] = {
            "value": ["cartesian", "spherical"],
            "general": [f"{obj}View", f"{obj}View:Units"],
            "specific": {k: {f"{obj}View:Units": [v]}
                         for k, v in units.items()}}
        out[f"{obj}View:Units"] = {
            "value": None, "general": [f"{obj}View", f"{obj}View:Type"]}
        out[f"{obj}Up"] = {"value": None, "general": [f"{obj}View"]}
    out["RoomTemperature"] = {
        "value": None, "general": ["RoomTemperature:Units"]}
    out["RoomTemperature:Units"] = {
        "value": ["kelvin"], "general": ["RoomTemperature"]}
    out["RoomVolume"] = {"value": None, "general": ["RoomVolume:Units"]}
    out["RoomVolume:Units"] = {
        "value": ["cubic metre"], "general": ["RoomVolume"]}
    out["RoomCornerA"] = {
        "value": None, "general": ["RoomCornerB", "RoomCorners:Type",
                                   "RoomCorners:Units"]}
    out["RoomCornerB"] = {
        "value": None, "general": ["RoomCornerA", "RoomCorners:Type",
                                   "RoomCorners:Units"]}
    out["RoomCorners:Type"] = {
        "value": ["cartesian", "spherical"],
        "specific": {k: {"RoomCorners:Units": [v]}
                     for k, v in units.items()}}
    out["SourceTuningFrequency"] = {
        "value": None, "general": ["SourceTuningFrequency:Units"]}
    out["SourceTuningFrequency:Units"] = {"value": ["hertz"]}
    out["Data.IR:ChannelOrdering"] = {
        "value": ["acn", "sid"], "general": ["Data.IR:ChannelNormalization"],
        "specific": {"sid": {"Data.IR:Origin": ["listener", "room"]},
                     "acn": {"Data.IR:Reference": None}}}
    names = sorted({c.split("_")[0] for c in conventions})
    specific = {
        "GeneralTF": {"GLOBAL:DataType": ["TF"]},
        "GeneralFIR": {"GLOBAL:DataType": ["FIR"]},
        "GeneralFIR-E": {"GLOBAL:DataType": ["FIR-E"]},
        "GeneralSOS": {"GLOBAL:DataType": ["SOS"]},
        "SimpleFreeFieldHRIR": {
            "GLOBAL:DataType": ["FIR"], "GLOBAL:RoomType": ["free field"],
            "EmitterPosition:Type": ["cartesian", "spherical"],
            "_dimensions": {"E": {"value": [1], "value_str": "1"}}},
        "FreeFieldHRIR": {
            "GLOBAL:DataType": ["FIR"], "GLOBAL:RoomType": ["free field"]},
        "SimpleFreeFieldHRTF": {
            "GLOBAL:DataType": ["TF"], "GLOBAL:RoomType": ["free field"],
            "EmitterPosition:Type": ["cartesian", "spherical"],
            "_dimensions": {"E": {"value": [1], "value_str": "1"}}},
        "FreeFieldHRTF": {
            "GLOBAL:DataType": ["TF-E"], "GLOBAL:RoomType": ["free field"]},
        "SimpleFreeFieldHRSOS": {
            "GLOBAL:DataType": ["SOS"], "GLOBAL:RoomType": ["free field"],
            "_dimensions": {"E": {"value": [1], "value_str": "1"}}},
        "SimpleHeadphoneIR": {"GLOBAL:DataType": ["FIR"]},
        "SingleRoomSRIR": {"GLOBAL:DataType": ["FIR"]},
        "SingleRoomMIMOSRIR": {"GLOBAL:DataType": ["FIR-E"]},
        "FreeFieldDirectivityTF": {
            "GLOBAL:DataType": ["TF"], "GLOBAL:RoomType": ["free field"]}}
    out["GLOBAL:SOFAConventions"] = {"value": names, "specific": specific}
    return out
