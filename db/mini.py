"""A small data base, with which all histories can be explored."""


def _rows(name, version, data_type, sofa="2.1", extra=(), ir="Data.IR",
          dims="mRn"):
    a, d = "attribute", "double"
    return [
        ("GLOBAL:Conventions", "SOFA", "rm", None, a),
        ("GLOBAL:Version", sofa, "rm", None, a),
        ("GLOBAL:SOFAConventions", name, "rm", None, a),
        ("GLOBAL:SOFAConventionsVersion", version, "rm", None, a),
        ("GLOBAL:APIName", "", "rm", None, a),
        ("GLOBAL:APIVersion", "", "rm", None, a),
        ("GLOBAL:DateCreated", "", "m", None, a),
        ("GLOBAL:DateModified", "", "m", None, a),
        ("GLOBAL:DataType", data_type, "rm", None, a),
        ("GLOBAL:Title", "", "m", None, a),
        ("GLOBAL:Comment", "", None, None, a),
        ("ListenerPosition", [[0, 0, 0]], "m", "IC, MC", d),
        ("ListenerPosition:Type", "cartesian", "m", None, a),
        ("ListenerPosition:Units", "metre", "m", None, a),
        ("ReceiverPosition", [[0, 0, 0]], "m", "rCI, rCM", d),
        ("ReceiverPosition:Type", "cartesian", "m", None, a),
        ("EmitterPosition", [[0, 0, 0]], "m", "eCI, eCM", d),
        ("EmitterPosition:Type", "cartesian", "m", None, a),
        (ir, [[0]], "m", dims, d),
        ("SourceName", [""], None, "IS, MS", "string"),
    ] + list(extra)


def mini():
    a, d = "attribute", "double"
    rate = [("Data.Rate", 48000, "r", "I, M", d),
            ("Data.Rate:Units", "hertz", None, None, a)]
    std = {
        "Mini_1.0": _rows("Mini", "1.0", "FIR", extra=rate),
        "Mini_2.0": _rows("Mini", "2.0", "FIR", extra=rate + [
            ("Gain", 1, "m", "I, M", d),
            ("GLOBAL:Info", "info", "rm", None, a)]),
        "Prelim_0.3": _rows("Prelim", "0.3", "TF")}
    dep = {
        "Old_0.5": _rows("Old", "0.5", "FIR", sofa="1.0", ir="Data.Wave",
                         dims="nRm", extra=[
                             ("GLOBAL:Note", "note", None, None, a),
                             ("Junk", 7, None, "I, M", d)])}
    units = {"cartesian": "metre", "spherical": "degree, degree, metre"}
    rules = {
        "GLOBAL:Conventions": {"value": ["SOFA"]},
        "GLOBAL:DataType": {
            "value": ["FIR", "TF"],
            "specific": {"FIR": {"GLOBAL:Title": None},
                         "TF": {"_dimensions": {"M": {
                             "value": [1, 2], "value_str": "1 or 2"}}}}},
        "Data.Rate": {"value": None, "general": ["Data.Rate:Units"]},
        "ListenerPosition:Type": {
            "value": list(units), "general": ["ListenerPosition"],
            "specific": {k: {"ListenerPosition:Units": [v]}
                         for k, v in units.items()}},
        "GLOBAL:SOFAConventions": {
            "value": ["Mini", "Old", "Prelim"], "specific": {}}}
    upgrade = {
        "Old": {"from_to": [[["0.5"], ["Mini_1.0", "Mini_2.0"], "up"]],
                "up": {"move": {
                    "Data.Wave": {"target": "Data.IR", "moveaxis": [0, 2],
                                  "deprecated_dimensions": None},
                    "GLOBAL:Note": {"target": "GLOBAL:Comment",
                                    "moveaxis": None,
                                    "deprecated_dimensions": None}},
                    "remove": ["Junk"], "message": None}},
        "Mini": {"from_to": [[["1.0"], ["Mini_2.0"], "up"]],
                 "up": {"move": {}, "remove": ["SourceName"],
                        "message": None}}}
    return {
        "standardized": std, "deprecated": dep, "rules": rules,
        "unit_aliases": {"metre": "metre", "metres": "metre", "m": "metre",
                         "degree": "degree", "hertz": "hertz"},
        "deprecations": {"GLOBAL:SOFAConventions": {"Old": "Mini"}},
        "upgrade": upgrade}
