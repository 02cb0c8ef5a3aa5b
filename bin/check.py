#!/usr/bin/env python3
"""check.py ID...|all: decides the given properties on /repo's current working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.dont_write_bytecode = True
import threading
import core


def main():
    ids = sys.argv[1:]
    if ids == ['all']:
        ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(core.VERIF, 'lib', 'rules')) if f[0] == 'p' and f.endswith('.py') and f[1:3].isdigit())
    rc = 0
    for i in ids:
        r = core.run_check(i)
        rc = max(rc, r) if rc != 1 else 1
        if r == 1:
            rc = 1
    return rc


if __name__ == '__main__':
    sys.setrecursionlimit(50000)
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 2)
