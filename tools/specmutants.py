"""
Are the invariants of SofarMC able to fail?  Change the specification at one
place at a time, and see which invariants notice (developer's tool).
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from db import mini  # noqa: E402
from harness import dbjson, run_shard  # noqa: E402

MUTANTS = [
    ("SofaObject", 'ELSE IF o.prot /\\ Entry(o, n).m THEN Res("TypeError", o)\n',
     "", "Intact"),
    ("SofaObject", 'ELSE IF o.prot /\\ ReadOnly(o, n) THEN Res("TypeError", o)\n',
     "", "Intact"),
    ("SofaObject", "!.cust = Remove(o.cust, {n})])", "!.prot = o.prot])",
     "Custom"),
    ("SofaObject", "IF IsEntry(o, n) THEN o.cust\n", "IF FALSE THEN o.cust\n",
     "Custom"),
    ("SofaObject", "IF HasAttr(o, n) THEN \"exists\"", "IF FALSE THEN \"e\"",
     "Rejected"),
    ("SofaObject", "[AddDefaults(r, a) EXCEPT !.prot = TRUE]",
     "[AddDefaults(r, a) EXCEPT !.prot = FALSE]", "Intact"),
    ("SofaObject", "IF Entries(o.conv)[n].m THEN mandatory ELSE optional}",
     "mandatory \\/ optional}", "Complete"),
    ("SofaObject", "@@ o.data]\n\nDoAddMissing", "@@ Empty]\n\nDoAddMissing",
     "Complete"),
    ("SofaObject", "names == {n \\in DOMAIN e : e[n].m \\/ ~mandatory}",
     "names == {n \\in DOMAIN e : e[n].m \\/ ~mandatory} \\ {\"GLOBAL_Title\"}",
     "Intact"),
    ("SofaVerify", "names == DOMAIN r.data\n",
     "names == DOMAIN r.data \\ {\"Data_Rate\"}\n", None),
    ("SofaVerify", "IF handling = \"raise\" /\\ HasErrors(all) THEN",
     "IF HasErrors(all) THEN", "Verdicts"),
    ("SofaVerify", "(IF mode = \"write\" THEN WriteIssues(o) ELSE {})",
     "(IF mode = \"read\" THEN WriteIssues(o) ELSE {})", "Verdicts"),
    ("SofaVerify", "{Iss(IF mode = \"write\" THEN \"E\" ELSE \"W\", \"deprecated\"",
     "{Iss(\"E\", \"deprecated\"", "Fresh"),
    ("SofaVerify", "IF Convs[o.conv].stable THEN {}",
     "IF TRUE THEN {}", "Verdicts"),
    ("SofaFile", "x |-> x.v, w |-> IF text", "x |-> [i \\in DOMAIN x.v |-> x.v[Len(x.v) + 1 - i]], w |-> IF text",
     "Readable"),
    ("SofaFile", "dims |-> CustomDims(Join(v.d))]]",
     "dims |-> <<v.d>>]]", "Readable"),
    ("SofaFile", "IF Size(v.sh) = 1 THEN <<>> ELSE v.sh",
     "IF Size(v.sh) = 1 THEN <<>> ELSE Squeeze(v.sh)", "Readable"),
    ("SofaFile", "THEN IF Drop(n, 7) \\in DOMAIN f.g",
     "THEN IF n \\in DOMAIN f.g", "Readable"),
    ("SofaUpgrade", "IN Moves((m.dst :> y) @@ Remove(data, {m.src}), Tail(moves))",
     "IN Moves((m.dst :> y) @@ data, Tail(moves))", "Upgradable"),
    ("SofaUpgrade", "d1 == [n \\in Keys |-> Norm(e[n].def)] @@ o.data",
     "d1 == o.data", "Upgradable"),
    ("SofaUpgrade", "!.cust = Remove(o.cust, DOMAIN e)]",
     "!.cust = Empty]", "Upgradable"),
    ("SofaUpgrade", "AddDefaults(o1, Missing(o1, TRUE, FALSE))",
     "AddDefaults(o1, {})", "Upgradable"),
    ("SofaUpgrade", "target \\notin Targets(o)\n", "target = \"none\"\n",
     "Upgradable"),
    ("SofaQuery", "~(IsEntry(o, n) /\\ IsAttr(o, n))", "TRUE", None),
    ("SofaQuery", "/\\ Compared(a, exclude) = Compared(b, exclude)",
     "/\\ Compared(a, exclude) \\subseteq Compared(b, exclude)", "Comparison"),
    ("SofaQuery", "\"DATE\" -> ~Contains(n, \"Date\")",
     "\"DATE\" -> TRUE", None),
    ("Sofar", "IF r.exc = \"\" /\\ ~r.vague THEN (FileName",
     "IF ~r.vague THEN (FileName", "Rejected"),
    ("Sofar", "(c.id :> r.o) @@ objs", "[i \\in {c.id} \\cup DOMAIN objs |-> r.o]",
     "Rejected"),
    ("Sofar", "LET r == DoDel(o, a.n) IN Out(r.exc, r.o)",
     "LET r == DoDel(o, a.n) IN Out(r.exc, [r.o EXCEPT !.prot = FALSE])",
     "Rejected"),
]
ALL = ["Intact", "Custom", "Complete", "Verdicts", "Fresh", "Readable",
       "Upgradable", "Comparison"]


def run(k):
    module, old, new, expected = MUTANTS[k]
    root = tempfile.mkdtemp(prefix="mutant")
    try:
        shutil.copytree(HERE + "/spec", root + "/spec")
        path = f"{root}/spec/{module}.tla"
        with open(path) as f:
            text = f.read()
        if old not in text or old == new:
            return k, "skipped", ""
        with open(path, "w") as f:
            f.write(text.replace(old, new, 1))
        with open(root + "/mini.db", "w") as f:
            json.dump(dbjson.export(mini.mini()), f)
        with open(root + "/X.cfg", "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS\n Depth = 3\n Part = "
                    '{"edit", "add", "verify", "files", "upgrade", "copy", '
                    '"query", "two"}\nVIEW View\n'
                    + "".join(f"INVARIANT {i}\n" for i in ALL)
                    + "PROPERTY Rejected\nCHECK_DEADLOCK FALSE\n")
        p = subprocess.run(
            ["java", "-Xmx3g", "-XX:+UseSerialGC", "-Xss64m", "-cp",
             run_shard.JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", "2",
             "-continue", "-metadir", root + "/m", "-config", root + "/X.cfg",
             "SofarMC.tla"], cwd=root + "/spec", text=True, timeout=1800,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            env=dict(os.environ, SOFA_DB=root + "/mini.db", SOFA_TRACE=""))
        found = sorted(
            set(re.findall(r"Invariant (\w+) is violated", p.stdout))
            | ({"Rejected"} if re.search(
                r"(Action|Temporal) propert\w+ .*violated", p.stdout)
               else set()))
        crash = "" if found or "No error" in p.stdout else p.stdout[-800:]
        return k, found, crash
    finally:
        shutil.rmtree(root)


if __name__ == "__main__":
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        for k, found, crash in pool.map(
                run, [int(x) for x in sys.argv[1:]] or range(len(MUTANTS))):
            module, old, new, expected = MUTANTS[k]
            print("ok  " if found == "skipped" or expected is None
                  or expected in found else "MISS", k,
                  module, repr(new[:50]), "->", found,
                  "expected", expected, crash, flush=True)
