"""Which check catches which planted bug (works on copies of /repo).

    python tools/runseeded.py [-a] [ID ...]      -a: all checks for each bug
"""
import glob
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(args):
    every = "-a" in args
    args = [a for a in args if a != "-a"]
    with open(os.path.join(HERE, "MANIFEST.json")) as f:
        props = [c["property"] for c in json.load(f)["checks"]]
    for path in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
        name = os.path.basename(path)
        if args and name not in args:
            continue
        with open(os.path.join(path, "meta.json")) as f:
            prop = json.load(f)["property"]
        repo = "/tmp/seedrun"
        if os.path.isdir(repo):
            shutil.rmtree(repo)
        shutil.copytree("/repo", repo, symlinks=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo)
        subprocess.run(["git", "apply", os.path.join(path, "patch.diff")],
                       cwd=repo, check=True)
        for p in (props if every else [prop]):
            if p not in props:
                print(name, p, "no check", flush=True)
                continue
            r = subprocess.run(
                [os.path.join(HERE, "bin", "check"), p, "quick"],
                text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                env=dict(os.environ, SOFAR_REPO=repo, VERIF_SEED="1"))
            lines = [ln.strip() for ln in r.stdout.split("\n")
                     if " x " in ln]
            if r.returncode or not every:
                print(name, p, {0: "MISSED", 1: "caught"}.get(
                    r.returncode, "ERROR"), "; ".join(lines)[:220],
                    flush=True)
        shutil.rmtree(repo)


if __name__ == "__main__":
    main(sys.argv[1:])
