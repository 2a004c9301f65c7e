"""python3 tools/seedcheck.py [ID...]: applies each planted bug to a scratch copy of /repo, runs its property's quick check there and
records which tests caught it in tools/seed_catches.json (used by gen_docs.py for the table in DESIGN.md)."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "tools", "seed_catches.json")


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    for i in ids:
        d = os.path.join(VERIF, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        copy = tempfile.mkdtemp(prefix="seedcheck-")
        try:
            subprocess.run("cp -a /repo/. %s" % copy, shell=True, check=True)
            subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=copy, check=True)
            r = subprocess.run(["bash", "run.sh", prop, "--no-evidence"], cwd=VERIF, env=dict(os.environ, EVOGIL_REPO=copy),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            tests = re.findall(r"^FAILED (\w+)", r.stdout, re.M)
            res = json.load(open(OUT)) if os.path.exists(OUT) else {}
            res[i] = tests if r.returncode == 1 else []
            with open(OUT, "w") as f:
                json.dump(res, f, indent=0, sort_keys=True)
                f.write("\n")
            print(i, prop, "rc", r.returncode, tests, flush=True)
        finally:
            shutil.rmtree(copy, ignore_errors=True)


main()
