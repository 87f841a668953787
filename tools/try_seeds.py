#!/usr/bin/env python3
"""Applies each change in seeded/ (or those named) to /repo in turn, runs the check of its property, undoes it."""
import glob, json, os, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)


def main():
    assert sh("git -C /repo status --porcelain").stdout == "", "/repo is not clean"
    names = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob(HERE + "/seeded/*"))
    missed = 0
    for n in names:
        d = os.path.join(HERE, "seeded", n)
        prop = json.load(open(d + "/meta.json"))["property"]
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode:
            print("%-34s DOES NOT APPLY %s" % (n, a.stderr.strip()[:100]))
            continue
        try:
            r = sh("/opt/venv/bin/python %s/run.py %s" % (HERE, prop))
        finally:
            sh("git -C /repo checkout -- .")
        kinds = [l.split("kind=")[1].split()[0] for l in r.stdout.splitlines() if "kind=" in l]
        missed += r.returncode != 1
        print("%-34s %s %s %s" % (n, prop, {1: "caught", 0: "MISSED"}.get(r.returncode, "rc%d" % r.returncode), ",".join(kinds[:4])), flush=True)
    print("missed", missed)


main()
