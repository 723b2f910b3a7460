#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's working tree. Exit 0 held, 1 violated (VIOLATION line), 2 the check failed."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import a_cache, a_wal, a_mem, a_coding, a_pure, a_keys, a_misc

CHECKS = {
    "C01": a_wal.c01, "C02": a_wal.c02, "C03": a_wal.c03, "C04": a_wal.c04, "C05": a_wal.c05, "C06": a_wal.c06,
    "C07": a_cache.c07, "C08": a_cache.c08, "C09": a_cache.c09, "C10": a_cache.c10,
    "C11": a_mem.c11, "C12": a_mem.c12, "C13": a_mem.c13,
    "C14": a_coding.c14, "C15": a_coding.c15,
    "C16": a_pure.c16, "C17": a_pure.c17, "C18": a_pure.c18, "C19": a_pure.c19, "C20": a_pure.c20,
    "C21": a_keys.c21, "C22": a_keys.c22, "C23": a_keys.c23,
    "C24": a_misc.c24, "C25": a_misc.c25, "C26": a_misc.c26, "C27": a_misc.c27, "C28": a_misc.c28, "C29": a_misc.c29, "C30": a_keys.c30, "C31": a_cache.c31, "C32": a_cache.c32,
}


def main():
    pid = sys.argv[1]
    c = vlib.Check(pid)
    try:
        c.build()
        CHECKS[pid](c)
        sys.exit(c.finish())
    except vlib.ToolError as e:
        print("ERROR of the check %s: %s" % (pid, e), flush=True)
        if c.violations:
            # what was rejected before stays rejected
            sys.exit(c.finish())
    except Exception:
        traceback.print_exc()
    sys.exit(2)


main()
