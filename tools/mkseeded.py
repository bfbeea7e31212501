"""
Write the planted bugs of tools/bugs.py to /verif/seeded and confirm them.

    python tools/mkseeded.py [ID ...]
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/seedwork"
sys.path.insert(0, os.path.join(HERE, "tools"))
import bugs  # noqa: E402

DEMO_SH = """#!/bin/bash
# exit 0 if the library behaves as it should
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""


def run(*cmd, cwd=None):
    return subprocess.run(cmd, cwd=cwd, text=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT)


def stable(repo):
    """The stable tests pass in a copy of the repository."""
    with open("/opt/vp/BASELINE.json") as f:
        base = json.load(f)
    tests = [t.replace(".", "/").replace("::", ".py::", 1)
             for t in base["stable"]]
    r = run("/opt/venv/bin/python", "-m", "pytest", "-q", "-x",
            "-p", "no:cacheprovider", *tests, cwd=repo)
    return r.returncode == 0, r.stdout[-800:]


def main(ids):
    os.makedirs(WORK, exist_ok=True)
    for bug in bugs.BUGS:
        if ids and bug["id"] not in ids:
            continue
        repo = os.path.join(WORK, "repo")
        if os.path.isdir(repo):
            shutil.rmtree(repo)
        shutil.copytree("/repo", repo, symlinks=True)
        run("git", "checkout", "-q", "--", ".", cwd=repo)
        out = os.path.join(HERE, "seeded", bug["id"])
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(os.path.join(out, "db"))
        for name in ("__init__.py", "conventions.py", "dbgen.py"):
            shutil.copy(os.path.join(HERE, "db", name),
                        os.path.join(out, "db", name))
        shutil.copy(os.path.join(HERE, "tools", "fixture.py"), out)
        with open(os.path.join(out, "demo.py"), "w") as f:
            f.write(f'"""{bug["breaks"]}"""\nfrom fixture import *\n'
                    + bug["demo"].strip() + "\n")
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        clean = run("bash", os.path.join(out, "demo.sh"), cwd=repo)
        for name, old, new in bug["edits"]:
            path = os.path.join(repo, name)
            with open(path) as f:
                text = f.read()
            assert text.count(old) == 1, (bug["id"], name, text.count(old),
                                          old)
            with open(path, "w") as f:
                f.write(text.replace(old, new))
        diff = run("git", "diff", cwd=repo).stdout
        with open(os.path.join(out, "patch.diff"), "w") as f:
            f.write(diff)
        with open(os.path.join(out, "meta.json"), "w") as f:
            json.dump({"property": bug["property"], "needs": bug["needs"],
                       "what_it_breaks": bug["breaks"]}, f, indent=1)
            f.write("\n")
        broken = run("bash", os.path.join(out, "demo.sh"), cwd=repo)
        ok, text = stable(repo)
        removed = [ln[1:] for ln in diff.split("\n")
                   if ln.startswith("-") and not ln.startswith("---")]
        original = run("git", "show", "c41ad88:" + bug["edits"][0][0],
                       cwd=repo).stdout.split("\n")
        orig = any(ln in original for ln in removed if ln.strip())
        good = clean.returncode == 0 and broken.returncode != 0 and ok and (
            orig or not removed)
        print(bug["id"], bug["property"], "ok" if good else "BAD",
              "" if orig else "(no original line removed)")
        if clean.returncode:
            print("  demo fails on the unchanged tree:", clean.stdout[-1500:])
        if not broken.returncode:
            print("  demo passes with the patch")
        elif "Assertion" not in broken.stdout:
            print("  ", broken.stdout.strip().split("\n")[-1][:200])
        if not ok:
            print("  stable tests:", text)
    shutil.rmtree(WORK)


if __name__ == "__main__":
    main(sys.argv[1:])
