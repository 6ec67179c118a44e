#!/usr/bin/env python3
"""runseeded.py [-j N] [ID...]: runs the check of each planted bug against it, and reports which are caught.

The bug is applied to a copy of /repo, which is put in the place of /repo in a mount namespace of its own."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

args = sys.argv[1:]
jobs = 1
if args[:1] == ["-j"]:
    jobs, args = int(args[1]), args[2:]
ids = args or sorted(os.listdir("/verif/seeded"))


def one(i):
    d = "/verif/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    wt = "/tmp/seedrun-" + i
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt)
    p = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=wt, capture_output=True, text=True)
    if p.returncode != 0:
        return i, "DOES NOT APPLY " + p.stderr
    p = subprocess.run(["unshare", "-m", "sh", "-c", "mount --bind %s /repo && cd /verif && ./check %s" % (wt, meta["property"])], capture_output=True, text=True)
    shutil.rmtree(wt)
    caught = p.returncode == 1 and "VIOLATION property=" + meta["property"] in p.stdout
    return i, "caught" if caught else "MISSED rc=%d %s" % (p.returncode, p.stdout[-300:] + p.stderr[-300:])


with ThreadPoolExecutor(jobs) as ex:
    for i, r in ex.map(one, ids):
        print(i, r, flush=True)
