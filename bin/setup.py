#!/usr/bin/env python3
"""Builds the harness from /repo's working tree and lets SANY read every specification."""
import concurrent.futures as cf, glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def parse(p):
    r = subprocess.run(["java", "-cp", vlib.JAR, "tla2sany.SANY", p], cwd=vlib.SPEC, capture_output=True, text=True)
    return p, r.returncode, r.stdout + r.stderr


def main():
    print("harness:", vlib.build())
    with cf.ThreadPoolExecutor(vlib.CORES) as ex:
        for p, rc, out in ex.map(parse, sorted(glob.glob(os.path.join(vlib.SPEC, "*.tla")))):
            if rc != 0 or "*** Errors" in out:
                print(p, out)
                return 1
    print("specifications parsed")
    return 0


sys.exit(main())
